"""Constant propagation over the C++ wrapper (ipmb-ffi/ipmb.cc): compiles probes to LLVM IR (nothing is run)
and reads off the value the optimiser proved each probe to return.  A value it could not decide is no violation."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-std=c++20", "-w", "-O2", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-S", "-emit-llvm", "-o", "-"]
CODES = {"SUCCESS": "kSuccess", "UNKNOWN": "kUnknown", "TIMEOUT": "kTimeout", "DECODE": "kDecode",
         "VERSION_MISMATCH": "kVersionMismatch", "TOKEN_MISMATCH": "kTokenMismatch", "PERMISSION_DENIED": "kPermissionDenied"}
WHERE = {"send": "Sender::send", "recv": "Receiver::recv", "join": "ipmb::join", "recv_handle": "Receiver::recv",
         "join_sender": "ipmb::join", "join_receiver": "ipmb::join", "message": "Message::Message", "selector": "Selector::Selector",
         "label_op_bool": "LabelOp::LabelOp(bool)", "label_op_leaf": "LabelOp::LabelOp(const char*)", "label_op_not": "LabelOp::op_not",
         "label_op_and": "LabelOp::op_and", "label_op_or": "LabelOp::op_or", "region_map": "MemoryRegion::map"}


def ir(src, defs, inc):
    p = subprocess.run(["clang++"] + FLAGS + defs + sum((["-I", i] for i in inc), []) + [os.path.join(HERE, src)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.stdout if p.returncode == 0 else None


def bodies(text):
    out, cur = {}, None
    for l in text.splitlines():
        m = re.match(r"define .*@((?:probe|name)_\w+)\((.*)", l)
        if m:
            cur = m.group(1)
            out[cur] = ([], set(re.findall(r"%(\w+)(?=[,)])", m.group(2))))
        elif l == "}":
            cur = None
        elif cur:
            out[cur][0].append(l.strip())
    return out


def verdict(lines, params):
    """-> ('const', n) | ('differs', text) | ('open', why)"""
    rets = [l for l in lines if l.startswith("ret i32")]
    vals = {l.split()[2] for l in rets}
    if len(vals) == 1:
        v = vals.pop()
        if re.fullmatch(r"-?\d+", v):
            return "const", int(v)
    elif vals and all(re.fullmatch(r"-?\d+", v) for v in vals):
        return "open", "several values"
    defs = {}
    for l in lines:
        m = re.match(r"%([\w.]+) = (.*)", l)
        if m:
            defs[m.group(1)] = m.group(2)
    todo = [x for l in rets for x in re.findall(r"%([\w.]+)", l)]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen or x in params:
            continue
        seen.add(x)
        d = defs.get(x)
        if d is None or d.split()[0] in ("phi", "call", "tail", "musttail", "invoke", "alloca") or "@" in d:
            return "open", d or x
        todo += re.findall(r"%([\w.]+)", d.split(", align")[0])
    return "differs", "; ".join(defs[x] for x in sorted(seen) if x in defs)[:200]


def includes(repo, dump):
    h = os.path.join(dump, "ipmb_ffi.h")
    base = os.path.join(repo, "ipmb-ffi")
    tmp = tempfile.mkdtemp(prefix="sacc")
    inc = os.path.join(base, "include")
    for f in os.listdir(inc):
        shutil.copy(os.path.join(inc, f), os.path.join(tmp, f))
    if os.path.exists(h):
        shutil.copy(h, os.path.join(tmp, "ipmb_ffi.h"))
    return tmp, [tmp, base]


def errors(repo, dump):
    """C29: each code the C interface reports reaches the C++ caller under its own name."""
    vio, sites, undecided = [], [], []
    tmp, inc = includes(repo, dump)
    try:
        with ThreadPoolExecutor(8) as ex:
            res = dict(zip(CODES, ex.map(lambda c: ir("probe.cc", ["-DK=ipmb_ffi::ERROR_CODE_" + c], inc), CODES)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    names = {}
    for c, text in res.items():
        if text is None:
            undecided.append("C++ wrapper, code " + c)
            continue
        b = bodies(text)
        for n, (ls, ps) in b.items():
            if n.startswith("name_"):
                names[n[5:]] = verdict(ls, ps)
        want = names.get(c.lower())
        for n, (ls, ps) in sorted(b.items()):
            if not n.startswith("probe_"):
                continue
            n = n[6:]
            if c == "DECODE" and n in ("send", "join", "join_sender", "join_receiver"):
                continue  # the C interface never reports it there
            got = verdict(ls, ps)
            where = f"ipmb-ffi/ipmb.cc {WHERE[n]}"
            if n in ("send", "recv", "join"):
                sites.append(f"{where}: ERROR_CODE_{c} -> {got[1]}")
                if got[0] == "const" and want and want[0] == "const" and got[1] != want[1]:
                    vio.append(dict(key=f"{WHERE[n]} reports ERROR_CODE_{c} under another name", loc=where,
                                    msg=f"the C interface's ERROR_CODE_{c} is reported as Error({got[1]}) instead of Error::{CODES[c]} = {want[1]}", trace=[]))
            else:
                exp = 1 if c == "SUCCESS" else 0
                sites.append(f"{where}: handle with ERROR_CODE_{c} -> {got[1]}")
                if got[0] == "const" and got[1] != exp:
                    vio.append(dict(key=f"{WHERE[n]}: wrong handle with ERROR_CODE_{c}", loc=where,
                                    msg="the handle of the C interface is not what the caller gets on success" if exp else "a handle is made although the C interface reported an error", trace=[]))
            if got[0] != "const":
                undecided.append(f"{WHERE[n]} with {c}")
    vals = [v[1] for v in names.values() if v[0] == "const"]
    if len(set(vals)) != len(vals):
        vio.append(dict(key="two reasons share one value of ipmb::Error", loc="ipmb-ffi/include/ipmb.h enum Error", msg=str(names), trace=[]))
    return vio, sites, undecided


def params(repo, dump):
    """C30: what the wrapper gives to the C interface is what its caller gave."""
    vio, sites, undecided = [], [], []
    tmp, inc = includes(repo, dump)
    try:
        text = ir("params.cc", [], inc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if text is None:
        return vio, sites, ["C++ wrapper"]
    for n, (ls, ps) in sorted(bodies(text).items()):
        n = n[6:]
        where = f"ipmb-ffi/ipmb.cc {WHERE[n]}"
        got = verdict(ls, ps)
        sites.append(f"{where}: {got[0]} {got[1]}")
        if got == ("const", 1):
            continue
        if got[0] == "open":
            undecided.append(WHERE[n])
        else:
            vio.append(dict(key=f"{WHERE[n]} does not pass its parameters through", loc=where,
                            msg=f"what the C interface is given (or gives back) is not what the caller gave (or gets): {got[1]}", trace=[]))
    return vio, sites, undecided


if __name__ == "__main__":
    import sys
    for f in (errors, params):
        for x in f(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/nonexistent"):
            print(*x, sep="\n")
