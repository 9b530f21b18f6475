"""C25: across any history, only the holder of a registered key authenticates."""
import base64
import json

from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.builders import CredentialCreationOptionsBuilder, CredentialRequestOptionsBuilder
from webauthn_rp.converters import cose_key, jsonify
from webauthn_rp.errors import WebAuthnRPError
from webauthn_rp.parsers import parse_cose_key, parse_public_key_credential
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar

from wv import att, refcbor, refder, sim
from wv.core import require
from wv.keys import ALL_SUITES, COSE_ALG, SimKey, pick_key
from wv.sim import AT, ED, UP, UV, AuthData, b64u, client_json, gen_exts, rbytes, sha256, user_entity

RULE = ('one evaluation = one registration or authentication of a history played end to end (options built, converted to JSON text, answered by a simulated client, the JSON response parsed, the ceremony run, the key stored in COSE '
        'form and read back) against a server model that decides from the submitted bytes and its own record of who holds which key; non-trivial = distinct (history, step, adversary action)')


def std(b):
    return base64.b64encode(b).decode()


def unstd(s):
    return base64.b64decode(s, validate=True)


# ---------------------------------------------------------------------------------
# The relying party under test: library code plus the thinnest possible storage
# ---------------------------------------------------------------------------------
class Store(CredentialsRegistrar):
    def __init__(self):
        self.rows, self.odd = {}, []

    def register_credential_attestation(self, credential, att, att_type, user, rp, trusted_path=None):
        acd = att.auth_data.attested_credential_data
        if acd.credential_id in self.rows:
            return 'already registered'
        self.rows[acd.credential_id] = dict(key=cose_key(acd.credential_public_key), count=att.auth_data.sign_count, user=user.id, rp=rp.id, fmt=att.fmt.value, type=att_type.value)

    def register_credential_assertion(self, credential, authenticator_data, user, rp):
        # Like an UPDATE: it protects nothing, and is content with no row at all.
        row = self.rows.get(credential.raw_id)
        if row is None:
            self.odd.append('an authentication with an unknown credential was reported')
            return
        if row['user'] != user.id or row['rp'] != rp.id:
            self.odd.append('an authentication was reported with another user or RP')
        row['count'] = authenticator_data.sign_count

    def get_credential_data(self, credential_id):
        row = self.rows.get(credential_id)
        if row is None:
            return None
        return CredentialData(credential_public_key=parse_cose_key(row['key']), signature_count=row['count'], user_entity=user_entity(row['user']),
                              rp_entity=T.PublicKeyCredentialRpEntity(name='rp', id=row['rp']))


class RP:
    def __init__(self, rng, rp_id, origin, ctx):
        self.id, self.origin = rp_id, origin
        self.store = Store()
        self.backend = CredentialsBackend(self.store)
        self.entity = T.PublicKeyCredentialRpEntity(name='RP ' + rp_id, id=rp_id)
        params = [T.PublicKeyCredentialParameters(type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=getattr(T.COSEAlgorithmIdentifier.Value, a)) for a in ('ES256', 'ES384', 'ES512', 'EDDSA')]
        self.create = CredentialCreationOptionsBuilder(rp=self.entity).pub_key_cred_params(params).timeout(60000)
        self.request = CredentialRequestOptionsBuilder().rp_id(rp_id)
        self.model = {}            # credential id -> dict(key, user, count)
        self.users = []


    def restart(self):
        """The server comes up again: a new backend over what was stored."""
        rows = {k: dict(v) for k, v in self.store.rows.items()}
        self.store = Store()
        self.store.rows = rows
        self.backend = CredentialsBackend(self.store)


class Session:
    def __init__(self, kind, rp, user, challenge, options, descriptors=None, uv=False, want_ext=None):
        self.kind, self.rp, self.user, self.challenge, self.options = kind, rp, user, challenge, options
        self.descriptors, self.uv, self.want_ext = descriptors, uv, want_ext


def begin_registration(rng, rp, user):
    ch = rbytes(rng, rng.choice([16, 32, 32, 64, 250]))
    b = rp.create
    mine = [c for c, m in rp.model.items() if m['user'] == user]
    if rng.random() < .5:
        b = b.exclude_credentials([T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=c) for c in mine])
    uv = rng.random() < .3
    if uv or rng.random() < .5:
        b = b.authenticator_selection(T.AuthenticatorSelectionCriteria(user_verification=T.UserVerificationRequirement.REQUIRED if uv else T.UserVerificationRequirement.DISCOURAGED))
    if rng.random() < .4:
        b = b.attestation(rng.choice(list(T.AttestationConveyancePreference)))
    if rng.random() < .2:
        rp.create = b.timeout(rng.choice([None, 1, 60000])).exclude_credentials(None).authenticator_selection(None)
    o = b.build(user=user_entity(user), challenge=ch)
    return Session('reg', rp, user, ch, json.loads(json.dumps(jsonify(o), allow_nan=False)), uv=uv)


def begin_authentication(rng, rp, user):
    """user None: a username-less login."""
    ch = rbytes(rng, rng.choice([16, 32, 32, 64, 250]))
    desc = None
    if user is not None and rng.random() < .7:
        desc = [T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=c, transports=rng.choice([None, [T.AuthenticatorTransport.USB]])) for c, m in rp.model.items() if m['user'] == user]
    uv = rng.random() < .3
    b = rp.request.user_verification(T.UserVerificationRequirement.REQUIRED if uv else rng.choice([T.UserVerificationRequirement.PREFERRED, None]))
    want = None
    if rng.random() < .2:
        want = rng.choice([set(), {T.ExtensionIdentifier.UVM}])
        b = b.extensions(T.AuthenticationExtensionsClientInputs(appid=None, tx_auth_simple=None, tx_auth_generic=None, authn_sel=None, exts=None, uvi=None, loc=None, uvm=True, biometric_perf_bounds=None))
    o = b.build(challenge=ch, allow_credentials=desc)
    return Session('auth', rp, user, ch, json.loads(json.dumps(jsonify(o), allow_nan=False)), desc, uv, want)


def run(s, text):
    """The server's handling of a response: JSON text in, None or exception out."""
    try:
        cred = parse_public_key_credential(json.loads(text))
        if s.kind == 'reg':
            r = s.rp.backend.handle_credential_attestation(credential=cred, user=user_entity(s.user), rp=s.rp.entity, expected_challenge=s.challenge, expected_origin=s.rp.origin, require_user_verification=s.uv)
        else:
            r = s.rp.backend.handle_credential_assertion(credential=cred, expected_challenge=s.challenge, expected_origin=s.rp.origin, rp=s.rp.entity, user=None if s.user is None else user_entity(s.user),
                                                         allow_credentials=s.descriptors, require_user_verification=s.uv, expected_extensions=s.want_ext)
        require(r is None, 'a handler returned %r' % (r,))
        return None
    except WebAuthnRPError as e:
        return e


# ---------------------------------------------------------------------------------
# Client and authenticators
# ---------------------------------------------------------------------------------
class Authenticator:
    """Holds keys by (rp id, user id); the private keys never leave it."""

    def __init__(self):
        self.keys = {}             # cid -> dict(key, rp, user, count)

    def create(self, rng, opts, origin, lie=None, cid=None):
        """Answer creation options (JSON). `lie` overrides rp/challenge/origin/type as a hostile client would."""
        pk = opts['publicKey']
        lie = lie or {}
        rp_id, ch = lie.get('rp', pk['rp']['id']), lie.get('challenge', unstd(pk['challenge']))
        user = unstd(pk['user']['id'])
        algs = {p['alg'] for p in pk['pubKeyCredParams'] if p['type'] == 'public-key'}
        fmt = rng.choice(['none', 'none', 'none', 'fido-u2f', 'android-key'])
        suite = ('P-256', 'ES256') if fmt == 'fido-u2f' else rng.choice([s for s in ALL_SUITES if COSE_ALG[s[1]] in algs])
        key = SimKey(suite[0], suite[1], rng.getrandbits(260)) if rng.random() < .5 else pick_key(rng, suite)
        cid = cid or rbytes(rng, rng.choice([16, 32, 64, 200]))
        count = rng.choice([0, 0, 1, 100, 2 ** 31, 2 ** 32 - 3])
        uv = pk.get('authenticatorSelection', {}).get('userVerification') == 'required' or rng.random() < .3
        flags = UP | AT | (UV if uv else 0)
        ext = gen_exts(rng) if rng.random() < .15 else None
        if ext is not None:
            flags |= ED
        c = sim.RegCase()
        c.ad = AuthData(sha256(rp_id.encode()), flags & ~lie.get('drop', 0), count, (rbytes(rng, 16), cid, key.cose(form=rng.choice(['int', 'int', 'str']))), ext)
        c.ad_bytes = c.ad.encode()
        c.cd_bytes = client_json(rng, lie.get('type', 'webauthn.create'), b64u(ch), lie.get('origin', origin), None)
        c.fmt = fmt
        proof = None
        if fmt == 'fido-u2f':
            k = att.SimKeyPool.att(rng)
            att.u2f_statement(rng, c, key, k)
            proof = k
        elif fmt == 'android-key':
            kd = att.honest_key_description(rng, sha256(c.cd_bytes))
            att.android_statement(rng, c, key, kd)
            proof = kd
        obj = refcbor.enc(refcbor.Pairs([('fmt', fmt), ('attStmt', c.stmt), ('authData', c.ad_bytes)]))
        self.keys[cid] = dict(key=key, rp=rp_id, user=user, count=count)
        return Response('reg', cid, c.cd_bytes, c.ad_bytes, obj=obj, fmt=fmt, stmt=c.stmt, proof=proof, ad=c.ad, key=key, ch=ch)

    def get(self, rng, opts, origin, cid=None, lie=None, key=None, handle='auto', count=None):
        pk = opts['publicKey']
        lie = lie or {}
        rp_id, ch = lie.get('rp', pk['rpId']), lie.get('challenge', unstd(pk['challenge']))
        if cid is None:
            own = [c for c, m in self.keys.items() if m['rp'] == rp_id]
            if 'allowCredentials' in pk:
                allowed = [unstd(d['id']) for d in pk['allowCredentials']]
                own = [c for c in own if c in allowed]
            if not own:
                return None
            cid = rng.choice(own)
        m = self.keys[cid]
        if count is None:
            if m['count'] == 0 and rng.random() < .5:
                count = 0
            elif m['count'] >= 2 ** 32 - 1:
                count = 2 ** 32 - 1
            else:
                m['count'] = count = min(2 ** 32 - 1, m['count'] + rng.choice([1, 1, 5]))
        uv = pk.get('userVerification') == 'required' or rng.random() < .3
        flags = UP | (UV if uv else 0)
        ext = None
        if pk.get('extensions', {}).get('uvm') or rng.random() < .1:
            flags |= ED
            ext = refcbor.Pairs([('uvm', [[2, 4, 2]])])
        ad = AuthData(sha256(rp_id.encode()), flags & ~lie.get('drop', 0), count, None, ext)
        cd = client_json(rng, lie.get('type', 'webauthn.get'), b64u(ch), lie.get('origin', origin), None)
        k = key or m['key']
        ad_bytes = ad.encode()
        h = (m['user'] if rng.random() < .6 or lie.get('handle') else None) if handle == 'auto' else handle
        return Response('auth', cid, cd, ad_bytes, sig=k.sign(ad_bytes + sha256(cd)), handle=h, ad=ad, ch=ch)


class Response:
    def __init__(self, kind, cid, cd, ad_bytes, **kw):
        self.kind, self.cid, self.cd, self.ad_bytes = kind, cid, cd, ad_bytes
        self.sig = self.handle = self.obj = self.fmt = self.stmt = self.proof = self.ad = self.key = self.ch = None
        self.__dict__.update(kw)

    def but(self, **kw):
        r = Response(self.kind, self.cid, self.cd, self.ad_bytes)
        r.__dict__.update(self.__dict__)
        r.__dict__.update(kw)
        if self.kind == 'reg' and ('stmt' in kw or 'ad_bytes' in kw):
            r.obj = refcbor.enc(refcbor.Pairs([('fmt', r.fmt), ('attStmt', r.stmt), ('authData', r.ad_bytes)]))
        return r

    def text(self):
        d = {'id': b64u(self.cid), 'type': 'public-key', 'rawId': std(self.cid)}
        if self.kind == 'reg':
            d['response'] = {'clientDataJSON': std(self.cd), 'attestationObject': std(self.obj)}
        else:
            d['response'] = {'clientDataJSON': std(self.cd), 'authenticatorData': std(self.ad_bytes), 'signature': std(self.sig)}
            if self.handle is not None:
                d['response']['userHandle'] = std(self.handle)
        return json.dumps(d)


# ---------------------------------------------------------------------------------
# The reference server: decides from the bytes and its own record of key holders
# ---------------------------------------------------------------------------------
def unb64u(s):
    try:
        return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))
    except ValueError:
        return None


def decide(s, r):
    why = set()
    if s.kind != r.kind:
        return {'kind'}
    rp = s.rp
    d = json.loads(r.cd)
    if d['type'] != {'reg': 'webauthn.create', 'auth': 'webauthn.get'}[s.kind]:
        why.add('type')
    if unb64u(d['challenge']) != s.challenge:
        why.add('challenge')
    if d['origin'] != rp.origin:
        why.add('origin')
    ad = r.ad_bytes
    if ad[:32] != sha256(rp.id.encode()):
        why.add('rp')
    if not ad[32] & UP:
        why.add('presence')
    if s.uv and not ad[32] & UV:
        why.add('verification')
    count = int.from_bytes(ad[33:37], 'big')
    if s.kind == 'reg':
        cid = r.ad.att[1]
        if cid in rp.model:
            why.add('duplicate')
        if r.fmt == 'fido-u2f':
            if not r.proof.valid(r.stmt['sig'], b'\0' + ad[:32] + sha256(r.cd) + cid + b'\4' + r.key.x + r.key.y, 'ES256'):
                why.add('attestation')
        elif r.fmt == 'android-key':
            if not r.key.valid(r.stmt['sig'], ad + sha256(r.cd)) or not att.key_description_ok(r.proof, sha256(r.cd)):
                why.add('attestation')
        return why
    m = rp.model.get(r.cid)
    if m is None:
        return why | {'unknown credential'}
    if s.descriptors is not None and r.cid not in [x.id for x in s.descriptors]:
        why.add('allow list')
    if s.user is not None:
        if s.user != m['user']:
            why.add('user')
    elif r.handle is None:
        why.add('no user handle')
    if r.handle is not None and r.handle != m['user']:
        why.add('user handle')
    if s.want_ext and not ad[32] & ED:
        why.add('extension')
    if not m['key'].valid(r.sig, ad + sha256(r.cd)):
        why.add('signature')
    if count <= m['count'] and not count == m['count'] == 0:
        why.add('counter')
    return why


def submit(ctx, s, r, action, note=''):
    why = decide(s, r)
    exc = run(s, r.text())
    det = dict(action=action, unmet=sorted(why), outcome=repr(exc), note=note, suite=r.key and repr(r.key), fmt=r.fmt)
    kind = {'reg': 'registration', 'auth': 'authentication'}[s.kind]
    if exc is None and why:
        ctx.violation('a %s succeeded although %s do not hold (%s)' % (kind, sorted(why), action), **det)
    elif exc is not None and not why:
        ctx.violation('an honest %s failed with %r (%s)' % (kind, exc, action), **det)
    if not why:
        if s.kind == 'reg':
            s.rp.model[r.ad.att[1]] = dict(key=r.key, user=s.user, count=r.ad.count)
            ctx.count('registered:%s' % r.fmt)
            ctx.count('registered:%s/%s' % (r.key.curve, r.key.alg))
        else:
            m = s.rp.model[r.cid]
            m['count'] = int.from_bytes(r.ad_bytes[33:37], 'big')
            ctx.count('authenticated:%s/%s' % (m['key'].curve, m['key'].alg))
    for w in why:
        ctx.count('unmet:' + w)
    ctx.count('%s:%s' % (s.kind, 'success' if exc is None else 'failure'))
    ctx.count('action:' + action)
    check_store(s.rp, action)
    ctx.judged((ctx.index, s.kind, s.challenge, action, r.cd, r.ad_bytes, r.sig))
    return exc is None


def check_store(rp, action):
    rows, model = rp.store.rows, rp.model
    odd, rp.store.odd = rp.store.odd, []
    require(not odd, '%s (%s)' % (odd[0] if odd else '', action))
    require(rows.keys() == model.keys(), 'the store holds other credentials than were registered (%s)' % action)
    for cid, m in model.items():
        row = rows[cid]
        require(row['count'] == m['count'] and row['user'] == m['user'] and row['rp'] == rp.id, 'the stored count, user or RP of a credential is wrong (%s)' % action, row=row, count=m['count'])
        d = dict(refcbor.dec(row['key']))
        k = m['key'].members()
        require(d == k or d == m['key'].members(form='str'), 'the stored COSE key is not the registered one (%s)' % action, stored=d, registered=k)


# ---------------------------------------------------------------------------------
# Histories
# ---------------------------------------------------------------------------------
def history(ctx, rng, index):
    rps = [RP(rng, 'example.com', 'https://example.com', ctx), RP(rng, rng.choice(['example.org', 'login.example.com', 'xample.com']), 'https://login.example.com:8443', ctx)]
    users = [rbytes(rng, 16), rbytes(rng, 16), rbytes(rng, 1)]
    devices = {u: Authenticator() for u in users}
    mallory = users[2]
    past = []                      # (session, response) ever submitted

    def login(rp, u, passwordless=None):
        return begin_authentication(rng, rp, None if (rng.random() < .25 if passwordless is None else passwordless) else u)

    def register(rp, u, action='register', **kw):
        s = begin_registration(rng, rp, u)
        r = devices[u].create(rng, s.options, rp.origin, **kw)
        submit(ctx, s, r, action)
        past.append((s, r))
        return s, r

    for rp in rps:
        for u in users:
            if rng.random() < .8 or (u == mallory):
                register(rp, u)

    def owned(u, rp):
        return [c for c, m in devices[u].keys.items() if m['rp'] == rp.id and c in rp.model and rp.model[c]['user'] == u]

    for step in range(16):
        rp = rng.choice(rps)
        other = rps[1 - rps.index(rp)]
        u = rng.choice(users)
        victim = rng.choice(users[:2])
        act = rng.choice(['login', 'login', 'login', 'register', 'replay', 'replay', 'replay-reg', 'own-key', 'forged-key', 'phish', 'relay', 'mix', 'mix', 'clone', 'takeover', 'stolen-handle', 'tamper', 'wrong-type',
                          'reg-lie', 'concurrent', 'unregistered', 'reg-mix', 'other-challenge', 'absent', 'unverified', 'negated-key', 'restart', 'remove', 'remove'])
        auths = [(s, r) for s, r in past if s.kind == 'auth' and s.rp is rp]
        regs = [(s, r) for s, r in past if s.kind == 'reg' and s.rp is rp]
        if act == 'login':
            s = login(rp, u)
            r = devices[u].get(rng, s.options, rp.origin, lie={'handle': s.user is None})
            if r is None:
                continue
            submit(ctx, s, r, act)
            past.append((s, r))
        elif act == 'restart':
            rp.restart()
            ctx.count('restarts')
        elif act == 'remove':          # the application removes a credential, and perhaps somebody else registers its ID
            cids = owned(u, rp)
            if not cids:
                continue
            cid = rng.choice(cids)
            s = login(rp, u, False)
            submit(ctx, s, devices[u].get(rng, s.options, rp.origin, cid=cid), 'before removal')
            count = rp.model[cid]['count']
            del rp.model[cid], rp.store.rows[cid]
            ctx.count('removals')

            def attempt(what, handle='auto'):
                s = login(rp, u)
                s.descriptors = rng.choice([None, [T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=cid)]])
                submit(ctx, s, devices[u].get(rng, s.options, rp.origin, cid=cid, lie={'handle': True}, count=min(count + 10, 2 ** 32 - 1)), what)
            attempt('removed')
            if rng.random() < .5:
                by = rng.choice(users)
                s = begin_registration(rng, rp, by)
                dev = Authenticator()
                submit(ctx, s, dev.create(rng, s.options, rp.origin, cid=cid), 'registered after removal')
                attempt('removed and registered by somebody else')
                if cid in rp.model:
                    s = login(rp, by, False)
                    submit(ctx, s, dev.get(rng, s.options, rp.origin, cid=cid), 'login after removal')
                    devices[u].keys.pop(cid)
                    devices[by].keys[cid] = dev.keys[cid]
        elif act == 'register':
            register(rp, u)
        elif act == 'replay' and auths:
            s0, r = rng.choice(auths)
            submit(ctx, begin_authentication(rng, rp, rng.choice([s0.user, s0.user, mallory, None])), r, act)
        elif act == 'replay-reg' and regs:
            s0, r = rng.choice(regs)
            s = begin_registration(rng, rp, rng.choice([s0.user, mallory]))
            submit(ctx, s, r, act)
            submit(ctx, s0, r, 'same-session-again')
        elif act == 'own-key':         # mallory answers the victim's login with her own registered key
            s = login(rp, victim)
            mine = owned(mallory, rp)
            if not mine:
                continue
            h = rng.choice([None, mallory, victim])
            submit(ctx, s, devices[mallory].get(rng, s.options, rp.origin, cid=rng.choice(mine), handle=h), act)
        elif act in ('forged-key', 'negated-key'):      # the victim's credential id, somebody else's key
            cids = owned(victim, rp)
            if not cids:
                continue
            s = login(rp, victim)
            cid = rng.choice(cids)
            k = rp.model[cid]['key']
            if act == 'negated-key':
                if not k.ec2:
                    continue
                from wv import refec
                forged = SimKey(k.curve, k.alg, refec.CURVES[k.curve]['n'] - k.secret - 1)
            else:
                forged = rng.choice([SimKey(k.curve, k.alg, rng.getrandbits(250)), pick_key(rng)] + [m['key'] for c, m in devices[mallory].keys.items()])
            submit(ctx, s, devices[victim].get(rng, s.options, rp.origin, cid=cid, key=forged, handle=rng.choice([None, victim]), count=min(2 ** 32 - 1, rp.model[cid]['count'] + 1)), act)
        elif act == 'phish':           # the victim's device is used at a look-alike site with the RP's challenge
            cids = owned(victim, rp)
            if not cids:
                continue
            s = login(rp, victim, False)
            evil = rng.choice(['https://example.com.evil.test', 'http://example.com', 'https://example.com:444', 'https://evil.test', 'https://examp1e.com', other.origin])
            if evil == rp.origin:
                continue
            submit(ctx, s, devices[victim].get(rng, s.options, evil, cid=rng.choice(cids), lie=rng.choice([{}, {'rp': other.id}])), act)
        elif act == 'relay':           # a response made for the other RP, or for the right origin but the other RP's scope
            cids = owned(victim, other)
            if not cids:
                continue
            s = login(rp, victim, False)
            submit(ctx, s, devices[victim].get(rng, s.options, rp.origin, cid=rng.choice(cids), lie={'rp': rng.choice([other.id, rp.id])}, handle=victim), act)
            s2 = login(other, victim, False)
            r2 = devices[victim].get(rng, s2.options, other.origin, cid=rng.choice(cids))
            submit(ctx, s, r2, 'relay-across')
        elif act == 'mix' and auths:   # parts of an old response with parts of a fresh one
            cids = owned(victim, rp)
            if not cids:
                continue
            s = login(rp, victim, False)
            fresh = devices[victim].get(rng, s.options, rp.origin, cid=rng.choice(cids))
            s0, old = rng.choice(auths)
            parts = rng.choice([('cd',), ('ad_bytes',), ('sig',), ('cid',), ('cd', 'ad_bytes'), ('cd', 'sig'), ('ad_bytes', 'sig'), ('cid', 'sig'), ('cid', 'cd'), ('handle',)])
            submit(ctx, s, fresh.but(**{p: getattr(old, p) for p in parts}), act, note=str(parts))
        elif act == 'clone':           # a copy of the device that fell behind
            cids = [c for c in owned(victim, rp) if rp.model[c]['count'] > 0]
            if not cids:
                continue
            cid = rng.choice(cids)
            n = rp.model[cid]['count']
            s = login(rp, victim, False)
            submit(ctx, s, devices[victim].get(rng, s.options, rp.origin, cid=cid, count=rng.choice([n, n - 1, 0, n // 2])), act)
        elif act == 'takeover':        # mallory registers the victim's credential id for herself
            cids = owned(victim, rp)
            if not cids:
                continue
            s = begin_registration(rng, rp, mallory)
            fake = Authenticator()
            submit(ctx, s, fake.create(rng, s.options, rp.origin, cid=rng.choice(cids)), act)
        elif act == 'stolen-handle':
            s = login(rp, victim, True)
            mine = owned(mallory, rp)
            if mine:
                submit(ctx, s, devices[mallory].get(rng, s.options, rp.origin, cid=rng.choice(mine), handle=rng.choice([victim, None, b'', mallory + b'\0', mallory])), act)
        elif act == 'tamper':
            cids = owned(victim, rp)
            if not cids:
                continue
            s = login(rp, victim, False)
            r = devices[victim].get(rng, s.options, rp.origin, cid=rng.choice(cids))
            i = rng.choice([32, 33, 34, 35, 36])
            bad = r.ad_bytes[:i] + bytes([r.ad_bytes[i] ^ (2 if i == 32 else rng.choice([1, 128]))]) + r.ad_bytes[i + 1:]
            submit(ctx, s, rng.choice([r.but(ad_bytes=bad), r.but(cd=r.cd + b' '), r.but(sig=r.sig[:-1] + bytes([r.sig[-1] ^ 1])), r.but(sig=b''), r.but(cd=json.dumps(dict(json.loads(r.cd), x=1)).encode())]), act)
        elif act == 'wrong-type':
            cids = owned(victim, rp)
            if not cids:
                continue
            s = login(rp, victim, False)
            submit(ctx, s, devices[victim].get(rng, s.options, rp.origin, cid=rng.choice(cids), lie={'type': rng.choice(['webauthn.create', 'webauthn.Get', '', 'payment.get'])}), act)
            if regs:
                s0, r0 = rng.choice(regs)
                submit(ctx, s, r0.but(), 'registration-as-login') if s.kind == r0.kind else None
        elif act == 'reg-lie':
            s = begin_registration(rng, rp, u)
            lie = rng.choice([{'origin': other.origin}, {'rp': other.id}, {'challenge': rbytes(rng, 32)}, {'challenge': s.challenge[:-1]}, {'type': 'webauthn.get'}, {'drop': UP}])
            submit(ctx, s, Authenticator().create(rng, s.options, rp.origin, lie=lie), act)
        elif act == 'concurrent':      # two open sessions answered in the other order, and crosswise
            if not owned(u, rp):
                continue
            s1, s2 = login(rp, u, False), login(rp, u, False)
            r1, r2 = (devices[u].get(rng, x.options, rp.origin) for x in (s1, s2))
            if r1 is None or r2 is None:
                continue
            if rng.random() < .5:
                submit(ctx, s1, r2, 'crosswise')
                submit(ctx, s2, r1, 'crosswise')
            for s, r in ((s2, r2), (s1, r1)):
                submit(ctx, s, r, act)
                past.append((s, r))
        elif act == 'unregistered':    # a key that was offered but never registered here
            s = login(rp, victim)
            dev = Authenticator()
            s0 = begin_registration(rng, rp, victim)
            r0 = dev.create(rng, s0.options, rp.origin)
            submit(ctx, s, dev.get(rng, s.options, rp.origin, cid=r0.cid, handle=victim), act)
        elif act == 'reg-mix' and regs:
            s = begin_registration(rng, rp, u)
            fresh = Authenticator().create(rng, s.options, rp.origin)
            s0, old = rng.choice(regs)
            r = rng.choice([lambda: fresh.but(cd=old.cd), lambda: old.but(cd=fresh.cd),
                            lambda: fresh.but(stmt=old.stmt, fmt=old.fmt, proof=old.proof) if old.fmt == fresh.fmt else old.but(cd=fresh.cd)])()
            submit(ctx, s, r, act)
        elif act == 'other-challenge':
            cids = owned(u, rp)
            if not cids:
                continue
            s = login(rp, u, False)
            ch = rng.choice([s.challenge[:-1], s.challenge + b'\0', b'', s.challenge[::-1] + b'x', rbytes(rng, len(s.challenge))] + [x.challenge for x, _ in past])
            submit(ctx, s, devices[u].get(rng, s.options, rp.origin, cid=rng.choice(cids), lie={'challenge': ch}), act)
        elif act in ('absent', 'unverified'):
            cids = owned(u, rp)
            if not cids:
                continue
            s = login(rp, u, False)
            submit(ctx, s, devices[u].get(rng, s.options, rp.origin, cid=rng.choice(cids), lie={'drop': UP if act == 'absent' else UV}), act)
    ctx.sample(credentials=[len(rp.model) for rp in rps], submitted=len(past))


def suites(ctx, rng, index):
    """Every suite and format: register, log in several times, be cloned and replayed."""
    rp = RP(rng, 'example.com', 'https://example.com', ctx)
    u = rbytes(rng, 16)
    for _ in range(6):
        dev = Authenticator()
        s = begin_registration(rng, rp, u)
        r = dev.create(rng, s.options, rp.origin)
        submit(ctx, s, r, 'register')
        last = None
        for _ in range(3):
            s = begin_authentication(rng, rp, u)
            a = dev.get(rng, s.options, rp.origin, cid=r.cid)
            submit(ctx, s, a, 'login')
            if last is not None:
                submit(ctx, s, last, 'replay')
            last = a
        k = dev.keys[r.cid]['key']
        s = begin_authentication(rng, rp, u)
        submit(ctx, s, dev.get(rng, s.options, rp.origin, cid=r.cid, key=SimKey(k.curve, k.alg, rng.getrandbits(250)), count=2 ** 32 - 1), 'forged-key')


def sieges(ctx, rng, index):
    """Many attempts of one sort against one credential, then its holder; and the holder many times over, or many holders in turn."""
    rp = RP(rng, 'example.com', 'https://example.com', ctx)
    users = [rbytes(rng, 16) for _ in range(rng.choice([1, 2, 5]))]
    devices = {u: Authenticator() for u in users}
    cids = {}
    for u in users:
        s = begin_registration(rng, rp, u)
        r = devices[u].create(rng, s.options, rp.origin)
        submit(ctx, s, r, 'register')
        cids[u] = r.cid

    def holder(u, what):
        s = begin_authentication(rng, rp, u if rng.random() < .7 else None)
        r = devices[u].get(rng, s.options, rp.origin, cid=cids[u], lie={'handle': s.user is None})
        submit(ctx, s, r, what)
        return s, r
    u = users[0]
    for _ in range(3):
        sort = rng.choice(['forged', 'forged', 'replayed', 'other origin', 'other challenge', 'old count', 'absent', 'wrong user', 'unknown', 'registrations', 'honest', 'garbage'])
        last = holder(u, 'before ' + sort) if sort in ('replayed', 'old count') else None
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, 16, 21])
        for i in range(n):
            s = begin_authentication(rng, rp, u)
            k = rp.model[cids[u]]['key']
            get = lambda **kw: devices[u].get(rng, s.options, rp.origin, cid=cids[u], **kw)  # noqa
            if sort == 'forged':
                r = get(key=SimKey(k.curve, k.alg, rng.getrandbits(250)), count=rng.choice([0, 2 ** 32 - 1, rng.getrandbits(32)]))
            elif sort == 'replayed':
                r = last[1]
            elif sort == 'other origin':
                r = devices[u].get(rng, s.options, 'https://evil.test', cid=cids[u])
            elif sort == 'other challenge':
                r = get(lie={'challenge': rbytes(rng, 32)})
            elif sort == 'old count':
                r = get(count=rng.choice([0, rp.model[cids[u]]['count']]))
            elif sort == 'absent':
                r = get(lie={'drop': UP})
            elif sort == 'wrong user':
                r = get(handle=rbytes(rng, 16))
            elif sort == 'unknown':
                r = get().but(cid=rbytes(rng, 16))
            elif sort == 'garbage':
                r = get().but(sig=rbytes(rng, rng.choice([0, 8, 70])))
            elif sort == 'registrations':
                other = rng.choice(users)
                s = begin_registration(rng, rp, other)
                r = Authenticator().create(rng, s.options, rp.origin, lie=rng.choice([None, {'origin': 'https://evil.test'}, {'type': 'webauthn.get'}, {'challenge': b'x' * 32}]))
            else:
                holder(rng.choice(users), 'many logins')
                continue
            submit(ctx, s, r, 'siege: ' + sort)
        if rng.random() < .2:
            rp.restart()
        holder(u, 'after siege')
        holder(rng.choice(users), 'after siege')
        ctx.count('sieges:%s' % sort)


KINDS = {'sieges': (sieges, 96, 3000), 'suites': (suites, 48, 1600), 'history': (history, 160, 8000)}
OPTIMIZED_WORKERS = (7,)
REQUIRED = {'removals': 60, 'reg:success': 300, 'reg:failure': 50, 'auth:success': 300, 'auth:failure': 300, **{'registered:' + f: 30 for f in ('none', 'fido-u2f', 'android-key')},
            **{'authenticated:%s/%s' % s: 3 for s in ALL_SUITES}, **{'unmet:' + w: 10 for w in ('challenge', 'origin', 'rp', 'signature', 'counter', 'user', 'unknown credential', 'duplicate', 'type', 'presence', 'user handle')}}
