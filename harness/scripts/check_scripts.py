"""C23: the helper scripts prime.py and file_compare.py, run from /repo's current tree.

usage: check_scripts.py run C23 | replay FILE
"""
import contextlib
import hashlib
import importlib.util
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
import hypothesis
import hypothesis.configuration
import sympy
from hypothesis import strategies as st

REPO = "/repo/proof_of_storage/src/"
PRIME = REPO + "vde/prime.py"
COMPARE = REPO + "proof_of_storage/file_compare.py"
VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
CPU_LIMIT = 100


class Violation(Exception):
    pass


class TooLong(BaseException):
    pass


def n(quick, thorough):
    return thorough if THOROUGH else quick


def load_prime():
    spec = importlib.util.spec_from_file_location("prime_under_test", PRIME)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


prime = None
scratch = None


def seeded(*key):
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    random.seed(int.from_bytes(h[:8], "little"))


# ---- numbers ----------------------------------------------------------------------------------

def number_value(case):
    """case: [kind, ...] -> (number, is it prime)"""
    kind = case[0]
    if kind == "plain":
        v = int(case[1])
        return v, v > 1 and bool(sympy.isprime(v))
    if kind == "prime":  # [prime, bits, r]
        v = sympy.nextprime(2 ** (case[1] - 1) + int(case[2]) % 2 ** (case[1] - 1))
        return int(v), True
    if kind == "product":  # [product, bits, r, bits, r]
        p, q = (int(sympy.nextprime(2 ** (b - 1) + int(r) % 2 ** (b - 1))) for b, r in (case[1:3], case[3:5]))
        return p * q, False
    if kind == "power":  # [power, bits, r, e]
        p = int(sympy.nextprime(2 ** (case[1] - 1) + int(case[2]) % 2 ** (case[1] - 1)))
        return p ** case[3], False
    if kind == "carmichael":  # (6k+1)(12k+1)(18k+1)
        k = int(case[1])
        while not all(sympy.isprime(a * k + 1) for a in (6, 12, 18)):
            k += 1
        return (6 * k + 1) * (12 * k + 1) * (18 * k + 1), False
    if kind == "liars":
        return worst(int(case[1])), False
    raise ValueError(kind)


def worst(start):
    """p(2p-1) with p = 3 mod 4: a quarter of all bases fail to witness that it is composite."""
    p = max(start, 1009)
    while not (p % 4 == 3 and sympy.isprime(p) and sympy.isprime(2 * p - 1)):
        p += 1
    return p * (2 * p - 1)


# strong pseudoprimes to the first prime bases
PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
       318665857834031151167461, 3317044064679887385961981]


def test_number(case, note):
    v, want = number_value(case)
    note(abs(v) > 1000, case[0])
    seeded("number", v)
    got = [bool(prime.is_prime(v)) for _ in range(6)]
    if want and not all(got):
        raise Violation(f"{v} is prime but rejected")
    # one wrong acceptance may be bad luck (probability at most 4^-5), six are not
    if not want and all(got):
        raise Violation(f"{v} is not prime but accepted")
    if v > 3 and v % 2 == 1:
        got = [bool(prime.rabin_miller(v)) for _ in range(6)]
        if want and not all(got) or not want and all(got):
            raise Violation(f"rabin_miller({v}) is {got[0]}")


def gen_number():
    big = st.integers(0, 2 ** 1100)
    bits = st.one_of(st.integers(3, 40), st.integers(40, 200))
    return st.one_of(
        st.tuples(st.just("plain"), st.integers(-1000, 10 ** 6)),
        st.tuples(st.just("plain"), st.integers(0, 2 ** 80)),
        st.tuples(st.just("plain"), st.sampled_from(PSI)),
        st.tuples(st.just("plain"), st.tuples(st.integers(2, 200), st.integers(-3, 3)).map(lambda x: 2 ** x[0] + x[1])),
        st.tuples(st.just("prime"), bits, big),
        st.tuples(st.just("product"), bits, big, bits, big),
        st.tuples(st.just("power"), st.integers(3, 60), big, st.integers(2, 4)),
        st.tuples(st.just("carmichael"), st.integers(1, 2 ** 30)),
        st.tuples(st.just("liars"), st.integers(1009, 2 ** 40)),
    ).map(lambda c: [c[0]] + [str(x) if isinstance(x, int) and x > 10 ** 4 or isinstance(x, int) and c[0] == "plain" else x for x in c[1:]])


def test_range(case, note):
    lo, hi = case
    note(hi > 1000, "range")
    for v in range(lo, hi):
        seeded("range", v)
        want = v > 1 and bool(sympy.isprime(v))
        got = bool(prime.is_prime(v))
        if got and not want:
            got = all(prime.is_prime(v) for _ in range(6))
        if got != want:
            raise Violation(f"is_prime({v}) is {got}")


def test_small_factors(case, note):
    """Products of two primes p <= q below the bounds; case: [p, largest q]"""
    p, top = case
    note(p > 3, "products")
    for q in sympy.primerange(p, top + 1):
        v = p * q
        seeded("product", v)
        if prime.is_prime(v) and all(prime.is_prime(v) for _ in range(5)):
            raise Violation(f"{v} = {p} * {q} is not prime but accepted")


def test_error(case, note):
    """Rate of wrong acceptances of the worst composites; 4^-5 each with the five trials of the script."""
    start, calls = case
    note(True, "error rate")
    seeded("error", start)
    wrong = 0
    numbers = [worst(start + 100000 * i) for i in range(20)]
    for i in range(calls):
        wrong += bool(prime.is_prime(numbers[i % 20]))
    # expected calls / 1024; the bound is more than six standard deviations above
    bound = calls / 1024 + 7 * (calls / 1024) ** 0.5 + 3
    if wrong > bound:
        raise Violation(f"{wrong} of {calls} tests of composite numbers answer prime, at most {bound:.0f} expected")


def test_get(case, note):
    bits, count = case
    note(True, f"{bits} bits" if bits >= 256 else "short")
    seeded("get", bits, count)
    seen = set()
    for _ in range(count):
        p = prime.get_prime(bits)
        # a composite passes with probability below 4^-5 only if it was drawn, and hardly ever for random numbers of this size
        if p.bit_length() != bits or p % 4 != 3:
            raise Violation(f"get_prime({bits}) returns {p}: {p.bit_length()} bits, {p % 4} mod 4")
        if not sympy.isprime(p):
            raise Violation(f"get_prime({bits}) returns the composite {p}")
        seen.add(p)
    if bits >= 64 and len(seen) != count:
        raise Violation(f"get_prime({bits}) repeats a prime")
    if bits <= 8 and count >= 1200:
        want = {p for p in range(2 ** (bits - 1), 2 ** bits) if sympy.isprime(p) and p % 4 == 3}
        if seen != want:
            raise Violation(f"get_prime({bits}) never returns {sorted(want - seen)}")


def test_main(case, note):
    note(True, "script")
    r = subprocess.run(["python3", "-B", PRIME], cwd=scratch, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    m = re.findall(r"\d{20,}", r.stdout)
    if r.returncode or len(m) != 1 or not sympy.isprime(int(m[0])) or int(m[0]).bit_length() != 512 or int(m[0]) % 4 != 3 or "True" not in r.stdout:
        raise Violation(f"prime.py prints {r.stdout[:300]!r} {r.stderr[-300:]!r}")


# ---- files ------------------------------------------------------------------------------------

def contents(case):
    a = bytes.fromhex(case["a"]) * case["times"]
    b = bytearray(a)
    for pos, x in case["edits"]:
        if b and x >= 0:
            b[pos % len(b)] ^= x
        elif b:
            b[pos % len(b)] = -1 - x
    b = bytes(b)
    how, k = case["shape"]
    if how == "prefix":
        b = b[: max(0, len(b) - k)]
    elif how == "longer":
        b = b + bytes(k)
    elif how == "shifted":
        b = b[k:] + b[:k]
    elif how == "without first":
        b = b[k:]
    elif how == "empty":
        b = b""
    return (b, a) if case["swap"] else (a, b)


def compare(in_process):
    if in_process:
        out = io.StringIO()
        old = os.getcwd()
        os.chdir(scratch)
        try:
            with contextlib.redirect_stdout(out):
                exec(compile(open(COMPARE, encoding="utf-8").read(), COMPARE, "exec"), {"__name__": "__main__"})
        except SystemExit:
            pass
        finally:
            os.chdir(old)
        return out.getvalue()
    return subprocess.run(["python3", "-B", COMPARE], cwd=scratch, stdin=subprocess.DEVNULL, capture_output=True, text=True).stdout


def test_compare(case, note):
    a, b = contents(case)
    d = os.path.join(scratch, "proof_of_storage/src/proof_of_storage/data")
    os.makedirs(d, exist_ok=True)
    paths = [os.path.join(d, "origin_data"), os.path.join(d, "unsealed_data")]
    for p, x in zip(paths, (a, b)):
        with open(p, "wb") as f:
            f.write(x)
    note(len(a) + len(b) > 0, "equal" if a == b else "lengths differ" if len(a) != len(b) else "content differs")
    out = compare(case.get("in_process", True))
    good, bad = "That's good" in out, "Oops" in out
    if good == bad:
        raise Violation(f"no clear verdict for files of {len(a)} and {len(b)} bytes: {out[:200]!r}")
    if good != (a == b):
        raise Violation(f"files of {len(a)} and {len(b)} bytes, {'equal' if a == b else 'different'}: {out[-100:]!r}")
    if bad and len(a) == len(b):
        want = sum(x != y for x, y in zip(a, b))
        m = re.findall(r"(\d+) bytes", out)
        if m and int(m[-1]) != want:
            raise Violation(f"{want} wrong bytes reported as {m[-1]}")
    for p, x in zip(paths, (a, b)):
        if open(p, "rb").read() != x:
            raise Violation("comparing changed a file")


def gen_compare(in_process=True, big=False):
    # few different values, line ends and text as well as arbitrary bytes
    few = st.lists(st.sampled_from([0, 0, 255, 10, 13, 9, 32, 26, 65]), min_size=1, max_size=60).map(bytes)
    text = st.text(max_size=60).map(lambda t: t.encode("utf-8", "replace"))
    return st.fixed_dictionaries({
        "a": (st.one_of(st.binary(max_size=40), st.binary(max_size=300), few, text) if not big else st.one_of(st.binary(min_size=30, max_size=100), st.just(bytes(50)), st.just(b"text\r\n" * 9))).map(bytes.hex),
        "times": st.sampled_from([1, 1, 1, 2, 7, 40, 300] if not big else [3000, 30000]),
        # non-negative: XOR; negative: set to -1 - x
        "edits": st.one_of(st.just([]), st.lists(st.tuples(
            st.one_of(st.integers(0, 100000), st.sampled_from([0, -1, -1, -2]), st.integers(65530, 3000000)),
            st.one_of(st.integers(1, 255), st.sampled_from([-1, -1, -256, -11, -14]))).map(list), max_size=5)),
        "shape": st.one_of(*[st.just(["same", 0])] * (6 if big else 1), st.tuples(st.sampled_from(["prefix", "longer", "shifted", "without first"]), st.integers(1, 70)).map(list), st.just(["empty", 0])),
        "swap": st.booleans(),
        "in_process": st.just(in_process),
    })


# ---- runner -----------------------------------------------------------------------------------

SUBS = [
    ("small numbers", "every integer from -60 to the bound against sympy, in pieces; non-trivial: pieces above the table of small primes",
     test_range, lambda: [[a, a + 1000] for a in [-60] + list(range(940, n(60000, 600000), 1000))], None),
    ("numbers", "primes of 3..200 bits, products, powers, Carmichael numbers, the smallest strong pseudoprimes, numbers near powers of two; sympy is the oracle, a composite has to be rejected in one of six runs; non-trivial: above 1000",
     test_number, gen_number, (1500, 20000)),
    ("small factors", "every product of two primes up to 1300, squares of primes up to 2600; non-trivial: p > 3",
     test_small_factors, lambda: [[int(p), max(int(p), n(1300, 6000))] for p in sympy.primerange(2, n(2600, 20000))], None),
    ("error rate", "the composites with the most false witnesses, tested thousands of times; non-trivial: always",
     test_error, lambda: [[10 ** k + 7919 * SEED, n(20000, 100000)] for k in (4, 6, 9)], None),
    ("generation", "get_prime of 2..1024 bits; non-trivial: always",
     test_get, lambda: [[b, 1500] for b in range(2, 9)] + [[b, n(20, 100)] for b in list(range(9, 64)) + [64, 65, 96, 127, 128, 129]] + [[256, 4], [512, n(2, 10)], [1024, n(1, 4)]], None),
    ("script", "prime.py run as a script; non-trivial: always", test_main, lambda: [[0]], None),
    ("comparison", "pairs of files of 0..90000 bytes, arbitrary, of few values, text: equal, edited, prefixes, extensions, rotations, empty, in both roles; non-trivial: not both empty",
     test_compare, gen_compare, (2500, 30000)),
    ("large files", "the same with files of up to several MB; non-trivial: as above",
     test_compare, lambda: gen_compare(True, True), (100, 1500)),
    ("comparison script", "the same through a separate process; non-trivial: as above", test_compare, lambda: gen_compare(False), (60, 600)),
]


def guarded(test, case, note):
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        test(case, note)
    except Violation:
        raise
    except TooLong:
        raise Violation(f"no result after {CPU_LIMIT} s of CPU time") from None
    except Exception as e:
        raise Violation(f"{type(e).__name__}: {e}") from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def too_long(*_):
    raise TooLong()


def explore(name, test, gen, counts, stats):
    s = stats[name] = {"evaluations": 0, "seen": set(), "labels": {}, "samples": []}
    last = {}

    def one(case):
        s["evaluations"] += 1
        js = json.dumps(case, sort_keys=True)
        last["case"] = case

        def note(nontrivial, label):
            s["labels"][label] = s["labels"].get(label, 0) + 1
            if nontrivial:
                s["seen"].add(hashlib.sha256(js.encode()).digest()[:8])
                if len(s["samples"]) < 3 and s["evaluations"] % 7 == 1:
                    s["samples"].append(js if len(js) < 500 else js[:480] + "...")

        guarded(test, case, note)

    try:
        if counts is None:
            for case in gen():
                one(case)
        else:
            f = hypothesis.given(gen())(one)
            f = hypothesis.settings(max_examples=n(*counts), database=None, deadline=None, report_multiple_bugs=False,
                                    suppress_health_check=list(hypothesis.HealthCheck), print_blob=False)(f)
            hypothesis.seed(SEED)(f)()
    except Violation as e:
        return {"property": "C23", "sub": name, "case": last["case"], "why": str(e)}
    return None


def main():
    global prime, scratch
    mode, arg = sys.argv[1], sys.argv[2]
    signal.signal(signal.SIGVTALRM, too_long)
    scratch = tempfile.mkdtemp(prefix="c23-")
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(scratch, "hypothesis"))
    t0 = time.time()
    stats, fail = {}, None
    try:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                prime = load_prime()
            compile(open(COMPARE, encoding="utf-8").read(), COMPARE, "exec")
        except SyntaxError as e:
            print(f"cannot load the scripts: {e}", file=sys.stderr)
            return 2
        if mode == "replay":
            rep = json.load(open(arg))
            test = {s[0]: s[2] for s in SUBS}[rep["sub"]]
            try:
                guarded(test, rep["case"], lambda *_: None)
            except Violation as e:
                print(f"property C23 exploration {rep['sub']}: {e}")
                print(f"VIOLATION property=C23 replay={os.path.abspath(arg)}")
                return 1
            return 0
        for name, _, test, gen, counts in SUBS:
            fail = explore(name, test, gen, counts, stats)
            if fail:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    rules = {s[0]: s[1] for s in SUBS}
    ev = {
        "property": "C23", "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats.values()),
            "distinct_nontrivial": sum(len(s["seen"]) for s in stats.values()),
            "rule": " | ".join(f"{k}: {rules[k]}" for k in stats),
            "samples": [{"exploration": k, "case": c} for k, s in stats.items() for c in s["samples"]],
            "explorations": {k: {"evaluations": s["evaluations"], "distinct_nontrivial": len(s["seen"]), "labels": s["labels"]} for k, s in stats.items()},
        },
        "assumptions": ["sympy's primality test is right on the numbers used", "the scripts' generator is seeded by the check, so a run is reproducible"],
        "wall_s": round(time.time() - t0, 3), "violations": 1 if fail else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "C23.json"), "w") as f:
        json.dump(ev, f, indent=2)
    if fail:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps(fail, indent=2)
        p = os.path.join(d, "C23-%s-%s.json" % (re.sub(r"\W", "_", fail["sub"]), hashlib.sha256(body.encode()).hexdigest()[:16]))
        with open(p, "w") as f:
            f.write(body)
        print(f"property C23 exploration {fail['sub']}: {fail['why']}")
        print(f"minimal case: {json.dumps(fail['case'])[:700]}")
        print(f"VIOLATION property=C23 replay={p}")
        return 1
    print(f"OK property=C23 evaluations={ev['coverage']['evaluations']} distinct_nontrivial={ev['coverage']['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


sys.exit(main())
