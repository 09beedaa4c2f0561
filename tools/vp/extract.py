"""Mechanical extraction of items of /repo into a Verus file.

A proof unit (/verif/proofs/*.rs) is ordinary Verus text (spec functions, lemmas, assumed
contracts on dependencies) with blocks

    /*@extract <TOML> @*/

each of which is replaced, on every run, by the text of one item of /repo's current working
tree plus annotations.  TOML keys:

  file      path below /repo
  item      "name", "Type::name" or "Trait for Type::name" (fn, struct, enum, const, trait)
  kind      fn (default) | struct | enum | const | static
            | closure: the body of a closure inside function `item`, found by the token pattern `closure`
              whose hole $body is the closure's body; `sig` is the signature it is given (its captured
              variables become parameters)
  rename    new name of the extracted item
  drop_self true: a leading `self` receiver is removed from the signature
  ret       name given to the return value in the contract
  contract  requires/ensures/decreases clauses put between signature and body
  [[loop]]  n = ordinal (source order), spec = invariant/decreases text,
            start/end = ghost text placed at the start/end of the loop body,
            dead = true: the body is unreachable by contract, no reachability probe
  [[rewrite]] from/to = token pattern and replacement ($x = hole); `all` = every occurrence,
            `optional` = may be absent. Every applied rewrite is listed in the evidence.
  start     ghost text placed at the start of the function body
  tail      ghost text about the body's value, which it sees as vp_r (the body becomes `let vp_r = { body }; .. vp_r`; tail_value replaces the last vp_r)
  [[after]] pattern/text: ghost text placed after the (first) occurrence of the token pattern
  [[before]] pattern/text
  derive_order  (enum) true: adds `spec fn vp_rank` = position of the variant, as derive(PartialOrd, Ord) orders
  keep_attrs  false: attributes and doc comments are dropped (always dropped by default)

Dropped from every extracted item: attributes; visibility is dropped for functions and
forced to `pub` for types and constants; and what the listed rewrites say. Nothing else.
"""
import os
import re
import tomllib
from .lexer import lex, match_close, OPEN, CLOSE, Tok, LexError

REPO = os.environ.get("VP_REPO", "/repo")


class LostAnchor(Exception):
    pass


def _skip_attr(toks, i):
    # toks[i] is '#'
    j = i + 1
    if j < len(toks) and toks[j].t == "!":
        j += 1
    return match_close(toks, j) + 1


def _is_test_attr(toks, i, j):
    txt = "".join(t.t for t in toks[i:j])
    return txt == "#[cfg(test)]"


def _impl_header(toks, i, j):
    """(trait, type) of the impl header tokens i..j"""
    k = i + 1
    if toks[k].t == "<":
        d = 0
        while True:
            if toks[k].t == "<":
                d += 1
            elif toks[k].t == ">" and toks[k - 1].t != "-":
                d -= 1
                if d == 0:
                    k += 1
                    break
            k += 1
    parts, cur, d = [], [], 0
    for t in toks[k:j]:
        if t.t == "where" and d == 0:
            break
        if t.t == "<":
            d += 1
        elif t.t == ">":
            d -= 1
        elif t.t == "for" and d == 0:
            parts.append(cur); cur = []
            continue
        elif d == 0 and t.k == "id" and t.t not in ("dyn", "mut", "const"):
            cur.append(t.t)
    parts.append(cur)
    last = [p[-1] if p else "" for p in parts]
    return (None, last[0]) if len(last) == 1 else (last[0], last[1])


class Item:
    def __init__(self, kind, path, alts, toks, a, b, attr_start, test):
        self.kind, self.path, self.alts = kind, path, alts
        self.toks, self.a, self.b = toks, a, b      # token range [a,b)
        self.attr_start, self.test = attr_start, test


def index_items(toks):
    items = []

    def nested(i, end, test):
        # impl blocks declared inside a function body
        while i < end:
            if toks[i].t == "impl" and toks[i - 1].t in ("{", "}", ";"):
                k = i
                while toks[k].t != "{":
                    k += 1
                e = match_close(toks, k) + 1
                walk(i, e, [""], test)
                i = e
            elif toks[i].t in OPEN:
                i = match_close(toks, i) + 1
            else:
                i += 1

    def walk(i, end, prefix_alts, test):
        while i < end:
            attr0 = i
            t = toks[i]
            is_test = test
            while i < end and toks[i].t == "#":
                j = _skip_attr(toks, i)
                if _is_test_attr(toks, i, j):
                    is_test = True
                i = j
            # visibility etc.
            start = i
            while i < end and (toks[i].t in ("pub", "unsafe", "async", "default", "extern") or
                               (toks[i].k == "str") or
                               (toks[i].t == "(" and i > start and toks[i - 1].t == "pub")):
                if toks[i].t == "(":
                    i = match_close(toks, i) + 1
                else:
                    i += 1
            if i >= end:
                break
            t = toks[i]
            if t.t == "const" and toks[i + 1].t == "fn":
                i += 1
                t = toks[i]
            if t.t == "fn":
                name = toks[i + 1].t
                k = i + 2
                while toks[k].t not in ("{", ";"):
                    if toks[k].t in ("(", "["):
                        k = match_close(toks, k)
                    k += 1
                e = match_close(toks, k) + 1 if toks[k].t == "{" else k + 1
                items.append(Item("fn", name, [p + name for p in prefix_alts], toks, i, e, attr0, is_test))
                if toks[k].t == "{":
                    nested(k + 1, e - 1, is_test)
                i = e
            elif t.t in ("struct", "enum", "union"):
                name = toks[i + 1].t
                k = i + 2
                while toks[k].t not in ("{", ";"):
                    if toks[k].t == "(":
                        k = match_close(toks, k)
                    k += 1
                e = match_close(toks, k) + 1 if toks[k].t == "{" else k + 1
                items.append(Item(t.t, name, [p + name for p in prefix_alts], toks, i, e, attr0, is_test))
                i = e
            elif t.t in ("const", "static", "type", "use"):
                name = toks[i + 1].t
                k = i
                while toks[k].t != ";":
                    if toks[k].t in OPEN:
                        k = match_close(toks, k)
                    k += 1
                items.append(Item(t.t, name, [p + name for p in prefix_alts], toks, i, k + 1, attr0, is_test))
                i = k + 1
            elif t.t in ("mod", "trait", "impl"):
                k = i + 1
                while toks[k].t not in ("{", ";"):
                    if toks[k].t in ("(", "["):
                        k = match_close(toks, k)
                    k += 1
                if toks[k].t == ";":
                    i = k + 1
                    continue
                e = match_close(toks, k)
                if t.t == "impl":
                    tr, ty = _impl_header(toks, i, k)
                    alts = [ty + "::"]
                    if tr:
                        alts.append(f"{tr} for {ty}::")
                    inner = alts
                elif t.t == "trait":
                    inner = [toks[i + 1].t + "::"]
                    items.append(Item("trait", toks[i + 1].t, [toks[i + 1].t], toks, i, e + 1, attr0, is_test))
                else:
                    inner = prefix_alts
                walk(k + 1, e, inner, is_test)
                i = e + 1
            else:
                # macro invocation or something else: skip to ; or past a brace group
                k = i
                while k < end and toks[k].t not in (";", "{"):
                    if toks[k].t in ("(", "["):
                        k = match_close(toks, k)
                    k += 1
                if k >= end:
                    break
                i = match_close(toks, k) + 1 if toks[k].t == "{" else k + 1

    walk(0, len(toks), [""], False)
    return items


_cache = {}


def load(file):
    p = os.path.join(REPO, file)
    if p not in _cache:
        try:
            src = open(p, encoding="utf-8").read()
            toks = lex(src)
            _cache[p] = (src, toks, index_items(toks))
        except (OSError, LexError, IndexError) as e:
            raise LostAnchor(f"{file}: {type(e).__name__} {e}")
    return _cache[p]


def find(file, name, kind="fn", nth=None):
    """the item; nth = (n, of): the n-th of exactly `of` items of that name (impls of one generic trait)"""
    src, toks, items = load(file)
    c = [it for it in items if it.kind == kind and not it.test and name in it.alts]
    if nth and len(c) == nth[1]:
        return src, c[nth[0]]
    if len(c) != 1:
        raise LostAnchor(f"{file}: {kind} {name}: {len(c)} candidates")
    return src, c[0]


def loops(toks, a, b):
    """loops in body tokens [a,b): list of (kind, kw index, open-brace index, close index)"""
    out = []
    i = a
    while i < b:
        t = toks[i]
        if t.k == "id" and t.t in ("for", "while", "loop"):
            if t.t == "for" and toks[i + 1].t == "<":
                i += 1
                continue
            k = i + 1
            while toks[k].t != "{":
                if toks[k].t in ("(", "["):
                    k = match_close(toks, k)
                k += 1
            out.append((t.t, i, k, match_close(toks, k)))
        i += 1
    return out


def pat_tokens(p):
    p = p.strip()
    out = []
    for m in re.finditer(r"\$[A-Za-z_][A-Za-z0-9_]*|(?:\"(?:[^\"\\]|\\.)*\"|(?!\$[A-Za-z_]).)+", p, re.S):
        g = m.group()
        if g.startswith("$") and len(g) > 1:
            out.append(Tok("hole", g[1:], 0, 0))
        else:
            out.extend(lex(g))
    return out


def match_at(toks, i, b, pat):
    """match pat at token i; returns (end, holes) or None. Holes match lazily, balanced."""
    def rec(i, pi, holes):
        while pi < len(pat):
            p = pat[pi]
            if p.k == "hole":
                j = i
                # at least one token
                while True:
                    if j >= b:
                        return None
                    if toks[j].k == "p" and toks[j].t in OPEN:
                        j = match_close(toks, j) + 1
                    elif toks[j].k == "p" and toks[j].t in CLOSE:
                        return None
                    elif toks[j].t == ";":
                        return None
                    else:
                        j += 1
                    h = dict(holes)
                    if p.t in h and h[p.t] != (i, j):
                        pass
                    h[p.t] = (i, j)
                    r = rec(j, pi + 1, h)
                    if r:
                        return r
            if i >= b or toks[i].t != p.t:
                return None
            i += 1
            pi += 1
        return (i, holes)
    return rec(i, 0, {})


def find_pat(toks, a, b, pat):
    i = a
    res = []
    while i < b:
        r = match_at(toks, i, b, pat)
        if r and r[0] > i:
            res.append((i, r[0], r[1]))
            i = r[0]
        else:
            i += 1
    return res


class Extracted:
    pass


def render(block):
    """block: dict (TOML). Returns (text, info)"""
    kind = block.get("kind", "fn")
    src, it = find(block["file"], block["item"], "fn" if kind == "closure" else kind, block.get("nth"))
    toks = it.toks
    a, b = it.a, it.b
    if kind == "closure":
        ms = find_pat(toks, a, b, pat_tokens(block["closure"]))
        if len(ms) != 1 or "body" not in ms[0][2]:
            raise LostAnchor(f"{block['item']}: closure `{block['closure'].strip()}`: {len(ms)} candidates")
        a, b = ms[0][2]["body"]
    edits = []       # (start, end, text, prio)
    info = {"file": block["file"], "item": block["item"], "kind": kind, "rewrites": [], "loops": [], "missing": [], "closures": 0}
    # drop attributes inside the item
    i = a
    while i < b:
        if toks[i].t == "#" and i + 1 < b and toks[i + 1].t == "[":
            j = _skip_attr(toks, i)
            at = "".join(t.t for t in toks[i:j])
            if "cfg" in at:
                # a cfg'd field/arm/statement: kept unless a rewrite says otherwise
                info["rewrites"].append(f"attribute {at} dropped")
            edits.append((toks[i].s, toks[j - 1].e, ""))
            i = j
        else:
            i += 1
    if kind == "closure":
        blk = toks[a].t == "{" and match_close(toks, a) == b - 1
        edits.append((toks[a].s, toks[a].s, block["sig"] + "\n" + block.get("contract", "") + "\n"))
        pos = toks[a].e if blk else toks[a].s
        edits.append((pos, pos, ("" if blk else "{") + "\n/*VP:START*/ " + block.get("start", "") + "\n" + ("let vp_r = {" if "tail" in block else "")))
        if "tail" in block:
            end = toks[b - 1].s if blk else toks[b - 1].e
            edits.append((end, end, "\n};\n" + block["tail"] + "\n" + block.get("tail_value", "vp_r") + "\n"))
        edits.append((toks[b - 1].e, toks[b - 1].e, "" if blk else "}"))
        body_open, body_close = a, b - 1 if blk else b
        info["rewrites"].append(f"closure `{' '.join(block['closure'].split())}` lifted to `{' '.join(block['sig'].split())}`")
    if kind == "fn":
        k = a
        while toks[k].t not in ("{", ";"):
            if toks[k].t in ("(", "["):
                k = match_close(toks, k)
            k += 1
        if toks[k].t != "{":
            raise LostAnchor(f"{block['item']}: no body")
        body_open, body_close = k, b - 1
        # signature
        if "rename" in block:
            edits.append((toks[a + 1].s, toks[a + 1].e, block["rename"]))
        p = a + 2
        if toks[p].t == "<":
            d = 0
            while True:
                if toks[p].t == "<":
                    d += 1
                elif toks[p].t == ">" and toks[p - 1].t != "-":
                    d -= 1
                    if d == 0:
                        break
                p += 1
            p += 1
        pc = match_close(toks, p)
        if block.get("drop_self"):
            j = p + 1
            while toks[j].t != "self":
                j += 1
                if j >= pc or j - p > 5:
                    raise LostAnchor("no self receiver")
            j += 1
            if toks[j].t == ",":
                j += 1
            edits.append((toks[p + 1].s, toks[j - 1].e, ""))
        # return type
        q = pc + 1
        if "ret" in block:
            if toks[q].t != "-":
                raise LostAnchor(f"{block['item']}: no return type")
            r0 = q + 2
            r1 = r0
            while r1 < body_open and toks[r1].t != "where":
                r1 += 1
            edits.append((toks[r0].s, toks[r0].s, f"({block['ret']}: "))
            edits.append((toks[r1 - 1].e, toks[r1 - 1].e, ")"))
        edits.append((toks[body_open].s, toks[body_open].s, "\n" + block.get("contract", "") + "\n"))
        edits.append((toks[body_open].e, toks[body_open].e,
                      "\n/*VP:START*/ " + block.get("start", "") + "\n" + ("let vp_r = {" if "tail" in block else "")))
        if "tail" in block:
            edits.append((toks[body_close].s, toks[body_close].s, "\n};\n" + block["tail"] + "\nvp_r\n"))
        if "end" in block:
            edits.append((toks[body_close].s, toks[body_close].s, "\n" + block["end"] + "\n"))
    if kind in ("fn", "closure"):
        ls = loops(toks, body_open, body_close)
        info["loops"] = [f"{x[0]} {src[toks[x[1]].s:toks[x[2]].s].strip()}" for x in ls]
        spec = {l["n"]: l for l in block.get("loop", [])}
        if block.get("loop") is not None or ls:
            want = block.get("nloops", len(spec))
            if want != len(ls):
                raise LostAnchor(f"{block['item']}: {len(ls)} loops, contract written for {want}")
        for n, (kd, kw, ob, cb) in enumerate(ls):
            l = spec.get(n)
            if l is None:
                continue
            if "kind" in l and l["kind"] != kd:
                raise LostAnchor(f"{block['item']}: loop {n} is `{kd}`, contract written for `{l['kind']}`")
            edits.append((toks[ob].s, toks[ob].s, "\n" + l.get("spec", "") + "\n"))
            edits.append((toks[ob].e, toks[ob].e, f"\n/*VP:{'DEAD' if l.get('dead') else 'LOOP'}{n}*/ " + l.get("start", "") + "\n"))
            if "end" in l:
                edits.append((toks[cb].s, toks[cb].s, "\n" + l["end"] + "\n"))
            if "before" in l:
                s = kw
                if toks[kw - 1].t == ":" and toks[kw - 2].k == "life":
                    s = kw - 2
                edits.append((toks[s].s, toks[s].s, l["before"] + "\n"))
            if "after" in l:
                edits.append((toks[cb].e, toks[cb].e, "\n" + l["after"] + "\n"))
    for rw in block.get("rewrite", []):
        pat = pat_tokens(rw["from"])
        ms = find_pat(toks, a, b, pat)
        if not ms:
            if rw.get("optional"):
                continue
            # what it would replace is not there: the text stands as it is, but a failing proof says nothing
            info["missing"].append(f"rewrite source `{' '.join(rw['from'].split())}` not found")
            continue
        if not rw.get("all"):
            ms = ms[:1]
        for (i, j, holes) in ms:
            txt = rw["to"]
            for h in sorted(holes, key=len, reverse=True):
                x, y = holes[h]
                txt = txt.replace("$" + h, src[toks[x].s:toks[y - 1].e])
            edits.append((toks[i].s, toks[j - 1].e, txt))
        info["rewrites"].append(f"{' '.join(rw['from'].split())}  =>  {' '.join(rw['to'].split())} (x{len(ms)})")
    for key in ("after", "before"):
        for ins in block.get(key, []):
            pat = pat_tokens(ins["pattern"])
            ms = find_pat(toks, a, b, pat)
            if not ms:
                if ins.get("optional"):
                    continue
                info["missing"].append(f"ghost anchor `{' '.join(ins['pattern'].split())}` not found")
                continue
            n = ins.get("nth", 0)
            if n >= len(ms):
                info["missing"].append(f"ghost anchor `{' '.join(ins['pattern'].split())}` #{n} not found")
                continue
            i, j, _ = ms[n]
            pos = toks[j - 1].e if key == "after" else toks[i].s
            edits.append((pos, pos, "\n" + ins["text"] + "\n"))
    # comments are dropped by re-emission of the token gaps
    base, end = toks[a].s, toks[b - 1].e
    # closures left in the verified text (they have no contract: nothing is known about what they return)
    hid = [(x, y) for x, y, _ in edits if y > x]
    for k in range(a + 1, b):
        if toks[k].t == "|" and toks[k - 1].t in ("(", ",", "=", "{", "}", ";", ">", "move", "return", "else") and not any(x <= toks[k].s < y for x, y in hid):
            info["closures"] += 1
    text = apply_edits(src, base, end, edits)
    if kind in ("const", "static", "struct", "enum", "type"):
        text = "pub " + text
    if block.get("derive_order"):
        text += derive_order(block, it)
        info["rewrites"].append("derive(PartialOrd, Ord): variant rank expanded from the declaration order")
    info["source_line"] = src.count("\n", 0, base) + 1
    return text, info


def derive_order(block, it):
    """what #[derive(PartialOrd, Ord)] says about an enum: `vp_rank` = the position of the variant"""
    toks = it.toks
    attrs = "".join(t.t + " " for t in toks[it.attr_start:it.a])
    if "PartialOrd" not in attrs or "Ord" not in attrs.replace("PartialOrd", ""):
        raise LostAnchor(f"{block['item']}: PartialOrd/Ord not derived")
    k = it.a
    while toks[k].t != "{":
        k += 1
    end = match_close(toks, k)
    k += 1
    arms, n = [], 0
    while k < end:
        if toks[k].t == "#":
            k = _skip_attr(toks, k)
            continue
        name = toks[k].t
        k += 1
        pay = ""
        while k < end and toks[k].t != ",":
            if toks[k].t == "=":
                raise LostAnchor(f"{block['item']}: explicit discriminants")
            if toks[k].t in OPEN:
                pay = " { .. }"
                k = match_close(toks, k)
            k += 1
        k += 1
        arms.append(f"{block['item']}::{name}{pay} => {n}")
        n += 1
    return (f"\nimpl {block['item']} {{ pub open spec fn vp_rank(&self) -> int {{ match *self {{ {', '.join(arms)} }} }} }}")


def apply_edits(src, base, end, edits):
    ins = [e for e in edits]
    # an insertion strictly inside a replaced range is lost -> error; replaced ranges may not overlap
    reps = sorted([e for e in ins if e[1] > e[0]], key=lambda e: (e[0], -e[1]))
    clean = []
    for r in reps:
        if clean and r[0] < clean[-1][1]:
            if r[1] <= clean[-1][1]:
                # nested inside a rewrite (e.g. a dropped attribute): the outer one wins
                continue
            raise LostAnchor("overlapping rewrites")
        clean.append(r)
    out = []
    events = sorted([(e[0], 1 if e[1] > e[0] else 0, n, e) for n, e in enumerate(ins)
                     if e[1] == e[0] or e in clean], key=lambda x: (x[0], x[1], x[2]))
    pos = base
    for s, _, _, e in events:
        if s < pos:
            if e[1] == e[0] and s < pos:
                raise LostAnchor("ghost text inside a rewritten range")
            continue
        out.append(src[pos:s])
        out.append(e[2])
        pos = max(pos, e[1])
    out.append(src[pos:end])
    return "".join(out)


BLOCK = re.compile(r"/\*@extract\n(.*?)@\*/", re.S)
INCL = re.compile(r"^//@include (\S+)\s*$", re.M)


def expand(unit_path):
    """Returns (text, infos). Raises LostAnchor."""
    d = os.path.dirname(unit_path)
    text = open(unit_path).read()
    for _ in range(4):
        text = INCL.sub(lambda m: open(os.path.join(d, m.group(1))).read(), text)
    infos = []

    def sub(m):
        try:
            block = tomllib.loads(m.group(1))
        except tomllib.TOMLDecodeError as e:
            raise SystemExit(f"{unit_path}: bad TOML: {e}\n{m.group(1)}")
        if "common" in block:
            pass
        t, info = render(block)
        info["rename"] = block.get("rename")
        infos.append(info)
        n = len(infos) - 1
        return f"/*VP:BEGIN {n}*/ {t} /*VP:END {n}*/"

    out = BLOCK.sub(sub, text)
    return out, infos
