"""Keeps file effects of the code under test inside scratch directories: an audit hook refuses (and records) every
creation, overwrite or deletion elsewhere, and every attempt to start programs, while it is switched on."""
import os, sys

STATE = {'roots': None, 'events': []}
_installed = [False]
_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
# event -> positions of (path, dir_fd) arguments that are changed
_EV = {'os.remove': [(0, 1)], 'os.rmdir': [(0, 1)], 'os.mkdir': [(0, 2)], 'os.rename': [(0, 2), (1, 3)], 'os.link': [(1, 3)], 'os.symlink': [(1, 2)],
       'os.truncate': [(0, None)], 'os.chmod': [(0, 2)], 'os.chown': [(0, 3)], 'os.utime': [(0, 3)], 'os.setxattr': [(0, None)],
       'os.removexattr': [(0, None)], 'os.chflags': [(0, None)], 'shutil.rmtree': [(0, 1)], 'shutil.move': [(0, None), (1, None)]}
_NO = {'os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.startfile', 'pty.spawn', 'os.kill', 'os.killpg', 'signal.pthread_kill'}
_OK = ('/dev/', '/proc/self/')


def _resolve(p, fd=None):
    if isinstance(p, bytes): p = os.fsdecode(p)
    p = os.fspath(p)
    if isinstance(p, bytes): p = os.fsdecode(p)
    if isinstance(fd, int) and fd >= 0 and not os.path.isabs(p): p = os.path.join(os.readlink('/proc/self/fd/%d' % fd), p)
    p = os.path.abspath(p)
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def _hook(ev, args):
    roots = STATE['roots']
    if roots is None: return
    if ev == 'open':
        p, mode, flags = args
        if not (isinstance(flags, int) and flags & _WR): return
        if not isinstance(p, (str, bytes, os.PathLike)): return
        todo = [(p, None)]
    elif ev in _EV:
        todo = []
        for i, j in _EV[ev]:
            p = args[i]
            if not isinstance(p, (str, bytes, os.PathLike)): continue
            todo.append((p, args[j] if j is not None and j < len(args) else None))
    elif ev in _NO:
        STATE['events'].append((ev, str(args)[:200]))
        raise PermissionError('refused by the check: %s' % ev)
    else: return
    for p, fd in todo:
        STATE['roots'] = None
        try: q = _resolve(p, fd)
        finally: STATE['roots'] = roots
        if any(q.startswith(x) for x in _OK) or '__pycache__' in q: continue
        if ev == 'os.mkdir' and os.path.isdir(q): continue        # changes nothing
        if not any(q.startswith(r + os.sep) for r in roots):
            STATE['events'].append((ev, q))
            raise PermissionError('refused by the check: %s %s' % (ev, q))


def on(*roots):
    if not _installed[0]:
        sys.addaudithook(_hook)
        _installed[0] = True
    STATE['events'] = []
    STATE['roots'] = [os.path.realpath(r) for r in roots]


def off(): STATE['roots'] = None
