"""mutate.py [-j N] [-n COUNT] [-s SEED] [-o LOG] FILE...: automatic breakages of source lines.  Each that compiles and passes the repository's
tests goes through combined.py in a private copy; a line of JSON per breakage goes to LOG."""
import argparse, concurrent.futures as cf, json, os, random, re, sys, threading
sys.argv, argv = sys.argv[:1], sys.argv[1:]
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=2); ap.add_argument("-n", type=int, default=50); ap.add_argument("-s", default="1")
ap.add_argument("-o", default="/tmp/mutate.log"); ap.add_argument("files", nargs="+")
A = ap.parse_args(argv)
os.environ["CAMPAIGN_BASE"] = "/tmp/mutate"
here = os.path.dirname(os.path.abspath(__file__))
src = open(here + "/campaign.py").read().rsplit("\nos.makedirs(BASE", 1)[0].replace('BASE = "/tmp/campaign"', 'BASE = "/tmp/mutate"')
os.makedirs("/tmp/mutate", exist_ok=True)
exec(compile(src, "campaign", "exec"))
open(BASE + "/lo.py", "w").write("import fcntl,socket,struct\ns=socket.socket()\nfcntl.ioctl(s,0x8914,struct.pack('16sh14x',b'lo',0x41))\n")

SWAPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?! )", "&&"), (r" \|\| ", " && "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"!(?=[a-z(])(?!=)", ""),
         (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" \* ", " / "), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
         (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"), (r"\b0xff\b", "0x7f"), (r"as u16", "as u8 as u16"), (r"as u8\b", "as i8 as u8"),
         (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.contains\(", ".starts_with("), (r"to_le_bytes", "to_be_bytes"), (r"from_le_bytes", "from_be_bytes"),
         (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\binsert\(", "remove("), (r"\.push\(", ".insert(0, "),
         (r"\bStatus::Ok\b", "Status::Rejected"), (r"Status::(Rejected|Failed|InvalidParam|InvalidRange|SyntaxError|InvalidMessageSize)\b", "Status::UnknownGid"),
         (r"SessionStateIdle", "SessionStateActive"), (r"SessionStateActive", "SessionStateIdle"), (r"SessionStateInit\b", "SessionStateIdle"), (r"DeviceStateActive", "DeviceStateReady"),
         (r"\bself\.handle\b", "0"), (r"\bnot \b", ""), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True")]


def candidates(f):
    lines = open("/repo/" + f).read().split("\n")
    out, depth = [], 0
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("#[cfg(test)]"):
            break
        if not t or t.startswith(("//", "#", "use ", "log::", "mod ", "pub mod", '"""', "import", "from ")):
            continue
        code = l.split("//")[0] if "://" not in l else l
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != l:
                    out.append((i, n))
        for m in re.finditer(r"(?<![\w.#\"'x])(\d+)(?![\w.\"'])", code):
            out.append((i, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]))
            if int(m.group(1)) > 0:
                out.append((i, code[:m.start()] + str(int(m.group(1)) - 1) + code[m.end():]))
        if f.endswith(".rs") and t.endswith(";") and not t.startswith(("let ", "return", "}", ")", ".", "const", "pub ", "static", "type")) and t.count("(") == t.count(")"):
            out.append((i, l[:len(l) - len(l.lstrip())] + "// " + t if False else l[:len(l) - len(l.lstrip())] + "{}"))
        if f.endswith(".py") and t.count("(") == t.count(")") and re.match(r"(self\.|await |\w+ \+?= |raise)", t):
            out.append((i, l[:len(l) - len(l.lstrip())] + "pass"))
    return [(f, i, lines[i], n) for i, n in out]


cands = [c for f in A.files for c in candidates(f)]
seen = set()
if os.path.exists(A.o):
    seen = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(A.o))}
cands = [c for c in cands if (c[0], c[1] + 1, c[3].strip()) not in seen]
random.Random(A.s).shuffle(cands)
print(len(cands), "candidates", flush=True)
cands = cands[:A.n]
lanes = [lane(i) for i in range(A.j)]
free, lock, log = list(lanes), threading.Lock(), open(A.o, "a")


def one(c):
    f, i, old, new = c
    with lock:
        d = free.pop()
    try:
        p = d + "/repo/" + f
        s = open(p).read().split("\n")
        assert s[i] == old
        s[i] = new
        open(p, "w").write("\n".join(s))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        b = ns(d, "cd /repo && touch %s && cargo build --workspace --offline" % f, 300)
        if b.returncode:
            r["res"] = "no build"
        else:
            ns(d, "bash /opt/vp/test.sh %s/test.json" % d, 400)
            try:
                failed = json.load(open(d + "/test.json")).get("failed")
            except Exception:
                failed = ["?"]
            if failed:
                r["res"] = "tests"
            else:
                kinds = "host" if f.startswith("py/") else "scene" if "/bin/" in f else "uci scene"
                c = ns(d, "timeout 600 python3 tools/combined.py " + kinds, 700)
                l = [x for x in c.stdout.splitlines() if x.startswith("@")]
                r.update({"res": "?", "out": c.stdout[-500:]} if not l else dict(json.loads(l[-1][1:]), res="x"))
                if r["res"] == "x":
                    r["res"] = "caught" if r["found"] else "SURVIVED"
        with lock:
            log.write(json.dumps(r) + "\n")
            log.flush()
            print(r["res"], f, i + 1, r["old"][:70], "->", r["new"][:70], dict(r.get("found", {})), flush=True)
    except Exception as e:
        print("ERROR", f, i, repr(e)[:300], flush=True)
    finally:
        subprocess.run("git checkout -q -- . && git clean -fdq", shell=True, cwd=d + "/repo")
        with lock:
            free.append(d)


with cf.ThreadPoolExecutor(A.j) as ex:
    list(ex.map(one, cands))
