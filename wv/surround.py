"""A process in which ceremonies are observed: what they touch besides the registrar, and what they do under other surroundings.

Run as `python -m wv.surround IN OUT`; IN is a pickle of {'jobs': [...], 'stores': [...], 'contexts': [...], 'monitor': bool}.
"""
import ctypes
import os
import pickle
import re
import sys

REAL_ENVIRON = os.environ


class Environment(type(os.environ)):
    """os.environ that notes which variables the code under test asks for, from its import on."""
    asked = set()

    def __init__(self, e):
        super().__init__(e._data, e.encodekey, e.decodekey, e.encodevalue, e.decodevalue)

    def __getitem__(self, key):
        f = sys._getframe(1)
        while f is not None and len(Environment.asked) < 50:
            if '/webauthn_rp/' in f.f_code.co_filename:
                Environment.asked.add(str(key))
                break
            f = f.f_back
        return super().__getitem__(key)


os.environ = Environment(REAL_ENVIRON)

import asyncio  # noqa: E402
import base64  # noqa: E402
import binascii  # noqa: E402
import builtins  # noqa: E402
import codecs  # noqa: E402
import copy  # noqa: E402
import datetime  # noqa: E402
import decimal  # noqa: E402
import enum  # noqa: E402
import functools  # noqa: E402
import gc  # noqa: E402
import hashlib  # noqa: E402
import hmac  # noqa: E402
import json  # noqa: E402
import json.decoder  # noqa: E402
import json.encoder  # noqa: E402
import locale  # noqa: E402
import logging  # noqa: E402
import random  # noqa: E402
import resource  # noqa: E402
import signal  # noqa: E402
import socket  # noqa: E402
import ssl  # noqa: E402
import string  # noqa: E402
import struct  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402
import types  # noqa: E402
import typing  # noqa: E402
import urllib.parse  # noqa: E402
import warnings  # noqa: E402

import cbor2  # noqa: E402

from wv import sim  # noqa: E402
from wv.core import dump  # noqa: E402

MODULES = [base64, binascii, builtins, codecs, copy, datetime, enum, functools, hashlib, hmac, json, json.decoder, json.encoder, logging, os, os.path, random, re,
           socket, ssl, string, struct, threading, time, types, typing, urllib.parse, cbor2]
MARK = 'wvbait'                      # occurs in what the client sends, so that its use as a name or as code can be told


# --- what is changed -------------------------------------------------------------------------------------------------
def handlers():
    return {s: repr(signal.getsignal(s)) for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)}


def snapshot():
    um = os.umask(0o22)
    os.umask(um)
    return {
        'environment': dict(os.environ), 'working directory': os.getcwd(), 'umask': um, 'random state': hash(random.getstate()),
        'recursion limit': sys.getrecursionlimit(), 'digit limit': sys.get_int_max_str_digits(), 'switch interval': sys.getswitchinterval(),
        'trace functions': (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()), 'sys.path': list(sys.path), 'import hooks': [list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))],
        'streams': tuple(map(id, (sys.stdin, sys.stdout, sys.stderr))), 'exception hooks': tuple(map(id, (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook))),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        'warning filters': (list(map(repr, warnings.filters)), id(warnings.showwarning)), 'locale': locale.setlocale(locale.LC_ALL), 'decimal context': re.sub(r'flags=\[[^]]*\]', '', repr(decimal.getcontext())),   # the flags are set by whoever computes, cbor2 included
       
        'threads': sorted(t.name for t in threading.enumerate()), 'signal handlers': handlers(), 'timers': [signal.getitimer(i)[1] for i in (0, 1, 2)],
        'resource limits': [resource.getrlimit(getattr(resource, r)) for r in sorted(dir(resource)) if r.startswith('RLIMIT_')],
        'time zone': (time.tzname, time.timezone), 'socket timeout': socket.getdefaulttimeout(),
        'logging': (logging.root.level, list(map(id, logging.root.handlers)), logging.root.disabled, logging.root.manager.disable, logging.raiseExceptions),
        'open files': sorted(os.listdir('/proc/self/fd')), 'children': open('/proc/self/task/%d/children' % threading.get_native_id()).read() if os.path.exists('/proc/self/task/%d/children' % threading.get_native_id()) else '',
        'uid': (os.getuid(), os.geteuid(), os.getgid()), 'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'cbor2': {k: id(v) for k, v in vars(cbor2).items()},
        'modules': {m.__name__ + '.' + k: id(v) for m in MODULES for k, v in vars(m).items() if not k.startswith('__') and k not in ('_cache', '_cache2', 'environ')},
    }


def differences(a, b):
    out = []
    for k in a:
        if a[k] == b[k]:
            continue
        if k == 'modules':
            out += ['%s was replaced' % n for n in sorted(set(a[k]) | set(b[k])) if a[k].get(n) != b[k].get(n) and n in a[k]]
        elif k == 'environment':
            out += ['environment variable %s was changed' % n for n in sorted(set(a[k]) | set(b[k])) if a[k].get(n) != b[k].get(n)]
        else:
            out.append('the %s changed: %s' % (k, (repr(a[k])[:150], repr(b[k])[:150])))
    return out


EVENTS = []
_on = threading.local()
QUIET = {'import', 'compile', 'exec', 'open', 'marshal.loads', 'os.listdir', 'os.scandir', 'object.__getattr__', 'object.__setattr__', 'object.__delattr__', 'sys._getframe', 'code.__new__', 'time.sleep',
         'builtins.id', 'sys._current_frames', 'gc.get_objects', 'gc.get_referrers', 'gc.get_referents', 'function.__new__', 'sys._getframemodulename', 'marshal.dumps', 'array.__new__',
         'ctypes.dlsym', 'ctypes.dlopen', 'ctypes.cdata', 'sys.monitoring.register_callback'}
SOURCE = re.compile(r'\.(py|pyc|so)$|^<|/__pycache__$')


def show(args):
    try:
        return repr(args)[:200]
    except Exception:  # noqa
        return '?'


def audit(name, args):
    if not getattr(_on, 'on', False):
        return
    _on.on = False
    try:
        if name == 'open':
            path, mode, flags = (list(args) + [None] * 3)[:3]
            writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if not writing and not isinstance(path, int) and SOURCE.search(os.fsdecode(path)) and MARK not in os.fsdecode(path):
                return
            EVENTS.append('opened %s' % show(args))
        elif name in ('os.listdir', 'os.scandir'):
            if not isinstance(args[0], (str, bytes)) or os.fsdecode(args[0]) not in sys.path_importer_cache:
                EVENTS.append('%s%s' % (name, show(args)))
        elif name in ('compile', 'exec', 'import', 'marshal.loads', 'time.sleep', 'ctypes.dlopen', 'ctypes.dlsym'):
            text = args[0] if args else ''
            text = text.decode('utf-8', 'replace') if isinstance(text, bytes) else text if isinstance(text, str) else ''
            if name == 'exec' and args and hasattr(args[0], 'co_names'):
                text = ' '.join(args[0].co_names + tuple(c for c in args[0].co_consts if isinstance(c, str)))
            if MARK in text:
                EVENTS.append('%s of what the client sent: %s' % (name, text[:150]))
        elif name not in QUIET:
            EVENTS.append('%s%s' % (name, show(args)))
    finally:
        _on.on = True


class Stream:
    """Stands for standard output or error while a ceremony runs."""
    encoding = 'utf-8'

    def __init__(self, what):
        self.what = what

    def write(self, s):
        if str(s).strip():
            EVENTS.append('wrote to %s: %s' % (self.what, str(s)[:150]))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class ReadStream(Stream):
    def read(self, *a):
        EVENTS.append('read from standard input')
        return ''
    readline = read


_streams = ReadStream('standard input'), Stream('standard output'), Stream('standard error')


class Records(logging.Handler):
    """Log records for somebody who asked for them are no effect on others; what they would print without that is."""

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            EVENTS.append('logged %s' % record.getMessage()[:150])


def watched(fn):
    """(what fn returned, what it touched)"""
    EVENTS.clear()
    was = sys.stdin, sys.stdout, sys.stderr
    sys.stdin, sys.stdout, sys.stderr = _streams
    show_was = warnings.showwarning
    warnings.showwarning = _ignore_warning
    last, logging.lastResort = logging.lastResort, _records
    try:
        before = snapshot()
        _on.on = True
        try:
            out = fn()
        finally:
            _on.on = False
        after = snapshot()
    finally:
        sys.stdin, sys.stdout, sys.stderr = was
        warnings.showwarning = show_was
        logging.lastResort = last
    return out, list(EVENTS) + differences(before, after)


LASTING = ('the sys.path', 'the working', 'the umask', 'the random', 'the recursion', 'the digit', 'the switch', 'the decimal', 'the locale', 'the signal', 'the timers', 'the uid', 'the resource', 'the socket timeout', 'environment variable',
           'wrote to', 'read from standard', 'socket.', 'subprocess.', 'os.system', 'os.fork', 'os.exec', 'os.posix_spawn', 'os.putenv', 'os.chmod', 'os.chown', 'os.kill', 'os.link', 'os.symlink', 'shutil.', 'tempfile.',
           'compile of', 'exec of', 'import of', 'urllib.', 'http.', 'sqlite3.', 'smtplib.', 'ftplib.', 'webbrowser.')


def lasting(effect):
    """Effects that no lazy import or lazily filled table has, so that they count the first time as well."""
    if effect.startswith('opened') or effect.startswith(('os.remove', 'os.rename', 'os.mkdir')):
        return '__pycache__' not in effect and (MARK in effect or any(m in effect for m in ("'w", "'a", "'x", "'r+", 'os.remove', 'os.rename', 'os.mkdir')))
    return effect.startswith(LASTING)


def _ignore_warning(*a, **kw):
    pass


_records = Records()


# --- under which surroundings ----------------------------------------------------------------------------------------
def shift(seconds):
    try:
        f = ctypes.CDLL(None).wv_shift
    except AttributeError:
        return False
    f.argtypes = [ctypes.c_longlong]
    f(int(seconds))
    return True


def deep(n, fn):
    return fn() if n == 0 else deep(n - 1, fn)


def in_thread(fn):
    out = []

    def body():
        try:
            out.append(fn())
        except BaseException as e:  # noqa
            out.append(repr(e))
    t = threading.Thread(target=body, name='other-thread')
    t.start()
    t.join()
    return out[0]


def under(context, fn):
    """fn() in some surroundings that can be set up within a process; everything is put back."""
    kind, arg = context
    if kind == 'clock':
        if not shift(arg):
            return None
        try:
            assert abs(time.time() - _start - arg) < 3000, 'the clock was not set'
            return fn()
        finally:
            shift(0)
    if kind == 'depth':
        return deep(arg, fn)
    if kind == 'thread':
        return in_thread(fn)
    if kind == 'loop':
        async def go():
            return fn()
        return asyncio.run(go())
    if kind == 'random':
        s = random.getstate()
        random.seed(arg)
        try:
            return fn()
        finally:
            random.setstate(s)
    if kind == 'gc':
        t = gc.get_threshold()
        gc.set_threshold(*((1, 1, 1) if arg else (0,)))
        try:
            return fn()
        finally:
            gc.set_threshold(*t)
    if kind == 'decimal':
        with decimal.localcontext() as c:
            c.prec = 2
            c.traps[decimal.Inexact] = True
            return fn()
    if kind == 'streams':
        was = sys.stdin, sys.stdout, sys.stderr
        sys.stdin = sys.stdout = sys.stderr = None
        try:
            return fn()
        finally:
            sys.stdin, sys.stdout, sys.stderr = was
    if kind == 'logging':
        level, handler = logging.root.level, logging.NullHandler()
        logging.root.setLevel(arg)
        logging.root.addHandler(handler)
        try:
            return fn()
        finally:
            logging.root.setLevel(level)
            logging.root.removeHandler(handler)
    if kind == 'trace':
        was = sys.gettrace()
        sys.settrace(lambda *a: None)
        try:
            return fn()
        finally:
            sys.settrace(was)
    if kind == 'environ':
        was = dict(os.environ)
        os.environ.update(arg)
        try:
            return fn()
        finally:
            for k in arg:
                os.environ.pop(k, None)
            os.environ.update(was)
    if kind == 'cwd':
        was = os.getcwd()
        os.chdir(arg)
        try:
            return fn()
        finally:
            os.chdir(was)
    if kind == 'modules':            # what else the process has imported
        new = [m for m in arg if m and m not in sys.modules]
        for m in new:
            sys.modules[m] = types.ModuleType(m)
        try:
            return fn()
        finally:
            for m in new:
                sys.modules.pop(m, None)
    if kind == 'argv':
        was = sys.argv, getattr(sys, 'orig_argv', None)
        sys.argv = list(arg)
        sys.orig_argv = ['python'] + list(arg)
        try:
            return fn()
        finally:
            sys.argv, sys.orig_argv = was
    if kind == 'interactive':
        sys.ps1, sys.ps2 = '>>> ', '... '
        try:
            return fn()
        finally:
            del sys.ps1, sys.ps2
    if kind == 'exception':          # while another exception is being handled
        try:
            raise KeyError('unrelated')
        except KeyError:
            return fn()
    raise KeyError(kind)


_start = time.time()


def called_from(name, job, worlds):
    """The job, with functions of a module of another name as the library's callers."""
    f = '/srv/%s.py' % name.replace('.', '/').replace('\0', '')
    g = dict(vars(sim), __name__=name, __file__=f, __package__=name.rpartition('.')[0])
    s = types.SimpleNamespace(**{k: v for k, v in vars(sim).items() if not k.startswith('__')})
    s.execute = types.FunctionType(sim.execute.__code__.replace(co_filename=f), g, 'execute')
    h = dict(globals(), __name__=name, __file__=f, __package__=name.rpartition('.')[0], sim=s)
    return types.FunctionType(perform.__code__.replace(co_filename=f), h, 'perform')(job, worlds)


# --- jobs ------------------------------------------------------------------------------------------------------------
def prepare(data):
    worlds = []
    for entries in data['stores']:
        reg = sim.MonitoredRegistrar()
        for cid, cose, user, rp, count in entries:
            reg.store[cid] = sim.Entry(cid, None, user, rp, count, sim.parse_cose_key(cose))
        worlds.append((reg, sim.CredentialsBackend(reg)))
    return worlds


def summary(exc, value):
    return repr((None if exc is None else type(exc).__name__, value))


def perform(job, worlds):
    """A printable, complete account of what one job did."""
    from webauthn_rp import converters, parsers, verifiers, builders, types as T
    kind, what, arg = job
    exc = value = None
    if kind == 'ceremony':
        reg, backend = worlds[what]
        out = sim.execute(backend, reg, arg)
        return summary(out.exc, (repr(out.returned), [(n, dump(a)) for n, a in out.events]))
    try:
        if kind == 'parse':
            value = dump(getattr(parsers, what)(arg))
        elif kind == 'verify':
            value = dump(verifiers.verify(sim.parse_cose_key(what), *arg))
        elif kind == 'key':
            value = dump([converters.cose_key(sim.parse_cose_key(arg)), converters.cryptography_public_key(sim.parse_cose_key(arg)).public_numbers().x if what else None])
        elif kind == 'options':
            ch, users, rp, n = arg
            user, rpe = sim.user_entity(users), sim.rp_entity(rp)
            p = [T.PublicKeyCredentialParameters(type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=T.COSEAlgorithmIdentifier.Value.ES256)] * n
            d = [T.PublicKeyCredentialDescriptor(type=T.PublicKeyCredentialType.PUBLIC_KEY, id=ch + bytes([i]), transports=[T.AuthenticatorTransport.USB, T.AuthenticatorTransport.NFC]) for i in range(n)]
            a = builders.CredentialCreationOptionsBuilder(rp=rpe).pub_key_cred_params(p).timeout(n).exclude_credentials(d).build(user=user, challenge=ch)
            b = builders.CredentialRequestOptionsBuilder().rp_id(rp).timeout(0).build(challenge=ch, allow_credentials=d)
            value = repr([converters.jsonify(a), converters.jsonify(b)])
    except Exception as e:  # noqa
        exc = e
        e.__traceback__ = None
    return summary(exc, value)


def main():
    with open(sys.argv[1], 'rb') as f:
        data = pickle.load(f)
    setting = []
    if data['monitor']:
        sys.addaudithook(audit)
        sys.path[:0] = ['', '.']          # as an interactive session has it, and more than once
        sys.path += ['', sys.path[-1]]
        worlds, early = watched(lambda: prepare(data))
        setting = [e for e in early if lasting(e)] + watched(lambda: prepare(data))[1]
    else:
        worlds = prepare(data)
    results = []
    shifted = shift(0)
    for i, job in enumerate(data['jobs']):
        effects, again = [], None
        if data['monitor']:
            first, early = watched(lambda: perform(job, worlds))
            perform(job, worlds)
            again, effects = watched(lambda: perform(job, worlds))
            effects += [e + ' (the first time)' for e in early if lasting(e)]
        else:
            first = perform(job, worlds)
        others = []
        for ctx in data['contexts'][i] if data['contexts'] else ():
            if ctx[0] == 'clock' and not shifted:
                continue
            got = called_from(ctx[1], job, worlds) if ctx[0] == 'caller' else under(ctx, lambda: perform(job, worlds))
            others.append((ctx, got == first, None if got == first else got[:700]))
        results.append(dict(first=first, again=again, effects=effects, others=others))
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(dict(results=results, setting=setting, asked=sorted(Environment.asked), optimized=not __debug__, shifted=shifted), f)


if __name__ == '__main__':
    main()
