"""D09, executable contracts: random transaction histories on the real sampler against a reference (bounded)."""
import copy

from .harness import require


class Src:
    def __init__(self, n):
        self.n = n
        self._active_epoch = None

    def __len__(self):
        return self.n


def run(H):
    from utils.training_utils import ResumableSampler, build_data_loader
    rng = H.rng
    H.bound("histories", "random histories of up to 60 operations (draw, stage, advance, prepare, commit, rollback, "
                         "save+load into a fresh sampler), lengths 1-40, world sizes 1-3")

    def fresh(n, w, r, seed, sh):
        return ResumableSampler(Src(n), shuffle=sh, seed=seed, rank=r, world_size=w)

    def orders(n, w, r, seed, sh, epochs):
        s = fresh(n, w, r, seed, sh)
        out = []
        for _ in range(epochs):
            out.append(list(s))
            s.advance_yield_epoch()
        return out

    for t in range(H.scale(250, 3000)):
        w = rng.randint(1, 3)
        r, seed, sh, n = rng.randrange(w), rng.randrange(1 << 20), rng.random() < .7, rng.randint(w, 40)
        batch = rng.randint(1, 7)
        ln = n // w
        drop = rng.random() < .5
        hist = []

        def body():
            ref = orders(n, w, r, seed, sh, 14)
            s = fresh(n, w, r, seed, sh)
            committed = (0, 0)       # epoch, offset
            seen = committed         # position after the last drawn batch of this iteration
            tokens = []
            it = None

            def norm(p):             # first index not yet consumed
                return (p[0] + 1, 0) if p[1] >= ln else p
            for _ in range(rng.randint(5, 60)):
                if seen[0] >= 12:
                    break
                op = rng.choice(["batch"] * 6 + ["commit"] * 3 + ["rollback", "resume", "bad", "foreign"])
                hist.append(op)
                if op == "batch":
                    e, o = seen
                    if o >= ln:
                        s.advance_yield_epoch()
                        it, seen = None, (e + 1, 0)
                        e, o = seen
                    if it is None:
                        it = iter(s)
                    want = ref[e][o:o + batch]
                    got = []
                    for _i in range(batch):
                        try:
                            got.append(next(it))
                        except StopIteration:
                            break
                    require(got == want, "the sampler draws other indices than the uncommitted ones of its epoch",
                            got=got, want=want, epoch=e, offset=o)
                    require(s.data_source._active_epoch == e, "the dataset is told another epoch", told=s.data_source._active_epoch)
                    if drop and len(got) < batch:      # the loader drops an incomplete last batch
                        seen = (e, o + len(got))
                        continue
                    tok = s.stage_batch(rng.choice([len(got), batch]))
                    require((tok.before_epoch, tok.before_offset) == (tokens[-1][1] if tokens else committed),
                            "a token starts elsewhere", token=tok)
                    seen = (e, o + len(got))
                    require((tok.after_epoch, tok.after_offset) == seen, "a token ends elsewhere", token=tok, want=seen)
                    tokens.append((tok, seen))
                elif op == "commit" and tokens:
                    k = rng.randint(1, len(tokens))
                    prep = s.prepare_commit([x for x, _ in tokens[:k]])
                    require((s.epoch, s.offset) == committed, "preparing a commit moves the position")
                    s.commit_prepared(prep)
                    committed = tokens[k - 1][1]
                    require((s.epoch, s.offset) == committed, "the position is not after the committed batches",
                            got=(s.epoch, s.offset), want=committed)
                    tokens = tokens[k:]
                elif op == "bad" and len(tokens) >= 2:
                    a = [x for x, _ in tokens]
                    bads = [a[1:], [a[1]], list(reversed(a)), [a[0], a[0]], []]
                    if len(a) >= 3:
                        bads += [[a[0], a[2]], [a[2], a[1], a[0]]]
                    bad = rng.choice(bads)
                    try:
                        s.prepare_commit(bad)
                    except (RuntimeError, ValueError):
                        pass
                    else:
                        require(False, "an out-of-order or gapped commit is accepted", tokens=bad)
                    require((s.epoch, s.offset) == committed, "a refused commit moves the position")
                    stale = s.prepare_commit(a[:1])
                    s.commit_prepared(s.prepare_commit(a[:2]))
                    committed = tokens[1][1]
                    tokens = tokens[2:]
                    if (stale.before_epoch, stale.before_offset) != committed:
                        try:
                            s.commit_prepared(stale)
                        except RuntimeError:
                            pass
                        else:
                            require(False, "a stale commit is accepted", prepared=stale)
                    require((s.epoch, s.offset) == committed, "a stale commit moves the position")
                elif op == "rollback":
                    s.rollback_uncommitted()
                    tokens, it, seen = [], None, committed
                    require((s.epoch, s.offset) == committed, "rollback moves the commit")
                elif op == "resume":
                    st = copy.deepcopy(s.state_dict())
                    if w == 1 and rng.random() < .3 and st.get("version") == 2:
                        st = {k: v for k, v in st.items() if k not in ("world_size", "rank")}
                        st["version"] = 1
                    s = fresh(n, w, r, seed, sh)
                    if rng.random() < .3:
                        next(iter(s), None)
                    s.load_state_dict(st)
                    tokens, it, seen = [], None, committed
                    require((s.epoch, s.offset) == committed, "a restored sampler is elsewhere")
                    require(s.state_dict() == fresh_state(st, s), "state does not survive a round trip")
                elif op == "foreign":
                    st = copy.deepcopy(s.state_dict())
                    others = [dict(st, length=n + w), dict(st, shuffle=not sh), dict(st, seed=seed + 1),
                              dict(st, version=3), dict(st, offset=ln + 1), dict(st, offset=-1),
                              dict(st, world_size=w + 1), dict(st, rank=r + 1), dict(st, length=n + 1)]
                    o = rng.choice(others)
                    try:
                        s.load_state_dict(o)
                    except (RuntimeError, ValueError):
                        pass
                    else:
                        require(False, "a foreign or damaged state is accepted", state=o, own=st)
                    require((s.epoch, s.offset) == committed, "a refused state moves the position")

        def fresh_state(st, s):
            out = dict(st)
            out["version"] = s.state_dict()["version"]
            for k in ("world_size", "rank"):
                out.setdefault(k, getattr(s, k))
            return out
        H.case("history", body, length=n, world=w, rank=r, seed=seed, shuffle=sh, batch=batch, drop_last=drop, operations=hist)

    # -- a whole run with crashes equals the uninterrupted run ----------------
    H.bound("crash runs", "2-4 epochs of committed batches, a crash with lookahead after every possible commit")
    for t in range(H.scale(40, 400)):
        n, seed, sh, batch = rng.randint(1, 23), rng.randrange(999), rng.random() < .7, rng.randint(1, 6)

        def body():
            ref = [x for e in orders(n, 1, 0, seed, sh, 3) for x in e]
            crash = rng.randrange(0, 8)
            s = fresh(n, 1, 0, seed, sh)
            out, commits = [], 0
            while len(out) < len(ref):
                it = iter(s)
                stop = False
                while not stop:
                    got = []
                    for _ in range(batch):
                        try:
                            got.append(next(it))
                        except StopIteration:
                            break
                    if not got:
                        break
                    tok = s.stage_batch(len(got))
                    if commits == crash:      # lookahead is lost, the process dies
                        st = s.state_dict()
                        s = fresh(n, 1, 0, seed, sh)
                        s.load_state_dict(st)
                        commits += 1
                        stop = True
                        break
                    s.commit_prepared(s.prepare_commit([tok]))
                    out += got
                    commits += 1
                if not stop:
                    s.advance_yield_epoch()
                elif s._yielded_offset >= s.local_length:
                    s.advance_yield_epoch()
            require(out[:len(ref)] == ref, "a crashed and resumed run uses other samples", got=out, want=ref, crash=crash)
        H.case("crash run", body, length=n, seed=seed, shuffle=sh, batch=batch)
