"""Runs an action in a forked child that dies before its n-th file-system operation, for every n."""
import os
import sys

EVENTS = {"open", "os.rename", "os.remove", "os.link", "os.truncate", "os.mkdir", "os.symlink", "shutil.move", "shutil.copyfile", "os.rmdir"}
_hook = {}


def _audit(name, args):
    h = _hook.get("h")
    if h is not None and name in EVENTS:
        if name == "open":
            mode, flags = args[1], args[2]
            if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) and not (isinstance(mode, str) and set(mode) & set("wxa+")):
                return
            if str(args[0]).startswith("/dev/"):
                return
        h(name, args)


_installed = False


def _arm(count, kill):
    """In the child: die before operation number `kill`."""
    global _installed
    import torch
    if not _installed:
        sys.addaudithook(_audit)
        _installed = True
    state = {"n": 0}

    def op(name, args=()):
        if state["n"] == kill:
            os._exit(0)
        state["n"] += 1
    _hook["h"] = op
    real = torch.save

    def save(obj, f, *a, **k):
        """A write that may stop before it begins, after a prefix, or before its file is closed."""
        import io
        buf = io.BytesIO()
        h, _hook["h"] = _hook["h"], None
        try:
            real(obj, buf, *a, **k)
        finally:
            _hook["h"] = h
        data = buf.getvalue()
        if hasattr(f, "write"):
            f.write(data[:len(data) // 2])
            f.flush()
            op("partial write")
            f.write(data[len(data) // 2:])
            return
        with open(f, "wb") as g:
            op("empty file")
            g.write(data[:len(data) // 2])
            g.flush()
            op("partial write")
            g.write(data[len(data) // 2:])
    torch.save = save
    if getattr(torch.serialization, "save", None) is real:
        torch.serialization.save = save


def child(fn):
    """fn() in a forked child; its exit status (0 normal, 3 an exception, which is returned as text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            fn()
            code = 7
        except BaseException as e:
            import traceback
            os.write(w, traceback.format_exc()[-3000:].encode())
        finally:
            os._exit(code)
    os.close(w)
    text = b""
    while chunk := os.read(r, 65536):
        text += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), text.decode(errors="replace")


def every_interruption(fn, limit=400):
    """Yield n after running fn in a child that died before its n-th operation; ends with None after a full run.
    The caller restores the directory between iterations."""
    for n in range(limit):
        def go():
            _arm(None, n)
            fn()
        code, text = child(go)
        if code == 7:
            yield None, ""
            return
        if code == 0:
            yield n, ""
        else:
            yield n, text or f"exit status {code}"
            return
    raise RuntimeError("too many file-system operations")
