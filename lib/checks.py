import itertools, json, math, os, re, struct, subprocess
import vp
from cli import Cli, pmap


def c01(c):
    exe = vp.harness("c01", ["c01_bits.c", "vp.c", "script.c"])
    c.run_harness(exe)
    try:  # the fetcher is compiled into the tests from a source file of its own; C17-C20 see it through the tests
        exe = vp.harness("c01f", ["c01_fetch.c", "vp.c", "script.c"], extra=("-I" + os.path.join(vp.REPO, "libdieharder"),))
    except vp.Broken:
        c.notes["fetcher_not_addressable"] = 1
        return
    c.run_harness(exe, label="c01f")


def c02(c):
    exe = vp.harness("c02", ["c02_windows.c", "vp.c", "script.c"])
    c.run_harness(exe)


def file_runs(c, raw):
    """A whole run of the program on a file: the samples tested are the file's numbers, in order and wrapped, and the report states how many were used."""
    cli = Cli()
    try:
        jobs = []
        for n in (16, 17, 33, 64, 100) if raw else (1, 2, 3, 17, 64, 100):
            w = [(i * 2654435761 ^ (i * i * 40503) ^ n) & 0xffffffff & (0xffff0fff if i % 3 else 0xffffffff) for i in range(n)]
            path = os.path.join(cli.dir, "f%d" % n)
            with open(path, "wb") as fo:
                fo.write(struct.pack("<%dI" % n, *w) + b"xyz"[:n % 4] if raw else b"# a comment\ntype: d\ncount: %d\nnumbit: 32\n" % n + b"".join(b"%10u\n" % x for x in w))
            for ts in sorted({1, n - 1, n, n + 1, 2 * n, 2 * n + 1, 5} - {0}):
                for ps in (1, 2, 3):
                    for opt in ((), ("-S", "7"), ("-s", "1"), ("-s", "1", "-S", "7"), ("-D", "rate"))[:5 if ts in (1, n, n + 1) else 2]:
                        jobs.append((n, w, path, ts, ps, opt))

        def one(j):
            n, w, path, ts, ps, opt = j
            return j, cli.run(["-g", 201 if raw else 202, "-f", path, "-d", "100", "-t", ts, "-p", ps, "-D", "file_rng_stat", "-D", "test_name", "-D", "psample_values", *opt])
        for (n, w, path, ts, ps, opt), (rc, out, err) in pmap(one, jobs):
            key = "run/n%d/t%d/p%d/%s" % (n, ts, ps, "".join(opt))
            o = out.decode(errors="replace")
            c.stat("states"); c.stat("transitions", ts * ps); c.stat("traces")
            got = [float(x) for x in re.findall(r"^\|([\d.]+)\|\s*$", o, re.M)]
            exp = []
            for k in range(ps):
                ones = sum(bin(w[i % n]).count("1") for i in range(k * ts, (k + 1) * ts))
                exp.append(0.5 * math.erfc((2 * ones - 32 * ts) / math.sqrt(2 * 32 * ts)))
            if len(got) != ps or any(abs(a - b) > 2e-8 for a, b in zip(sorted(got), sorted(exp))):
                c.fail(key, "the samples of a run on a file of %d numbers are not the file's numbers in order" % n, {"p-values": got, "expected": exp, "status": rc})
                continue
            m = re.search(r" (\d+) rands", o)
            b = re.search(r"\((\d+) bytes\)", o)
            r = re.search(r"rewound (\d+) times", o + err.decode(errors="replace"))
            if not m or int(m.group(1)) != ts * ps or (raw and (not b or int(b.group(1)) != 4 * ts * ps)) or not r or int(r.group(1)) != (ts * ps - 1) // n:
                c.fail(key, "the report does not state the %d numbers used and %d rewinds" % (ts * ps, (ts * ps - 1) // n), {"out": o[:300], "err": err.decode(errors="replace")[:200]})
    finally:
        cli.close()


def c03(c):
    exe = vp.harness("c03", ["c03_raw.c", "vp.c", "script.c"])
    c.run_harness(exe)
    file_runs(c, True)


def c04(c):
    exe = vp.harness("c04", ["c04_fmt.c", "vp.c", "script.c"])
    c.run_harness(exe)
    file_runs(c, False)


def c05(c):
    exe = vp.harness("c05", ["c05_stdin.c", "vp.c", "script.c"])
    c.run_harness(exe)
    cli = Cli()
    try:
        data = bytes((i * 73 + (i >> 3) * 31) & 255 for i in range(4096))
        lens = list(range(0, 41)) + [4091, 4092, 4093, 4094, 4095, 4096]
        jobs = [(ln, w) for ln in lens for w in sorted({1, 2, ln // 4, ln // 4 + 1}) if w > 0]

        def one(j):
            ln, w = j
            return j, cli.run(["-g", "200", "-D", "test_name", "-o", "-O", "0", "-t", w], stdin=data[:ln])
        for (ln, w), (rc, out, err) in pmap(one, jobs):
            k = min(w, ln // 4)
            c.stat("states"); c.stat("transitions", k + 1); c.stat("traces")
            key = "cli/len%d/want%d" % (ln, w)
            if out != data[:4 * k]:
                c.fail(key, "program wrote %d bytes, expected the first %d of its input" % (len(out), 4 * k), {"args": "-g 200 -o -O 0 -t %d" % w})
            elif rc == "timeout" or (isinstance(rc, int) and rc < 0):
                c.fail(key, "program status %s" % rc, {})
            elif ln // 4 < w and not err.strip():
                c.fail(key, "input ended without a message", {})
        for ln in (0, 3, 4, 400, 4096):
            rc, out, err = cli.run(["-g", "200", "-D", "test_name", "-d", "100", "-t", "2000", "-p", "2"], stdin=data[:ln])
            c.stat("states"); c.stat("traces")
            if b"sts_monobit" in out or not err.strip():
                c.fail("cli/test/len%d" % ln, "a test result was reported from too short an input, or no message", {"out": out.decode(errors="replace")[-500:]})
        with open(os.path.join(cli.dir, "x"), "wb") as f:
            f.write(data)
        d = os.open(cli.dir, os.O_RDONLY)
        try:
            rc, out, err = cli.run(["-g", "200", "-D", "test_name", "-o", "-O", "0", "-t", "2"], stdin=_FD(d))
        finally:
            os.close(d)
        c.stat("states"); c.stat("traces")
        if out or not err.strip():
            c.fail("cli/read-error", "a read error on standard input was not reported", {})
    finally:
        cli.close()


class _FD:
    def __init__(self, fd):
        self.fd = fd

    def fileno(self):
        return self.fd


def c07(c):
    exe = vp.harness("c07", ["c07_seed.c", "vp.c", "script.c"])
    c.run_harness(exe)


def rng_list():
    exe = vp.harness("dump", ["dump_rng.c"])
    out = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True, stderr=subprocess.DEVNULL).stdout
    return [(int(a), int(b), int(m), n) for a, b, m, n in (l.split("\t") for l in out.splitlines())]


def test_list():
    exe = vp.harness("dump", ["dump_rng.c"])
    out = subprocess.run([exe, "tests"], stdout=subprocess.PIPE, text=True, check=True, stderr=subprocess.DEVNULL).stdout
    return [(int(a), n, int(k), int(p), int(t)) for a, n, k, p, t, _ in (l.split("\t") for l in out.splitlines())]


def rng_streams(reqs):
    """reqs: list of (generator, seed, n) -> list of (words, uniforms), from the library itself."""
    exe = vp.harness("dump", ["dump_rng.c"])
    out = subprocess.run([exe], input="".join("%d %d %d\n" % r for r in reqs), stdout=subprocess.PIPE, text=True, check=True, stderr=subprocess.DEVNULL).stdout
    return [json.loads(l) for l in out.splitlines()]


def c08(c):
    exe = vp.harness("c08", ["c08_xor.c", "vp.c", "script.c"])
    c.run_harness(exe)
    names = {g: n for g, _, _, n in rng_list()}
    gens = [13, 14, 205, 206, 208, 204, 402]
    N = 12
    soft = [g for g in names if g < 500 and g not in (200, 201, 202, 207)]
    lists = [(a,) for a in soft] + [(13, a) for a in soft[::7]] + list(itertools.product(gens, gens)) + [(13, 206, 208), (206, 206, 206), (208, 13, 204), (402, 14, 205, 206)]
    lists = list(dict.fromkeys(l for l in lists if l.count(204) < 2 and l.count(402) < 2))
    cs = {}
    for s in (1, 99):
        w = rng_streams([(14, s, 8)])[0][0]
        cs[s] = w
    reqs = sorted({(g, cs[s][i], N) for l in lists for s in cs for i, g in enumerate(l)})
    streams = dict(zip(reqs, (x[0] for x in rng_streams(reqs))))
    cli = Cli()
    try:
        def one(j):
            l, s, named = j
            a = ["-g", "207"]
            for i, g in enumerate(l):
                a += ["-g", names[g] if (named >> i) & 1 else g]
            return j, a, cli.run(a + ["-S", s, "-o", "-O", "0", "-t", N])
        jobs = [(l, s, nm) for l in lists for s in cs for nm in ([0, 1, 2, 3][:2 ** min(len(l), 2)])]
        for (l, s, nm), a, (rc, out, err) in pmap(one, jobs):
            e = [0] * N
            for i, g in enumerate(l):
                e = [x ^ y for x, y in zip(e, streams[(g, cs[s][i], N)])]
            c.stat("states"); c.stat("transitions", N); c.stat("traces")
            if out != struct.pack("<%dI" % N, *e):
                c.fail("cli/%s/seed%d/named%d" % (",".join(map(str, l)), s, nm), "the program's output is not the exclusive-or of the components", {"args": " ".join(map(str, a)), "got": out.hex()[:96], "rc": rc})
        for k, a in (("none", []), ("unknown-number", ["-g", "777"]), ("huge-number", ["-g", "99999"]), ("unknown-name", ["-g", "nosuch"]), ("itself", ["-g", "207"]), ("second-unknown", ["-g", "13", "-g", "nosuch"]), ("negative", ["-g", "-5"])):
            rc, out, err = cli.run(["-g", "207", *a, "-S", "1", "-o", "-O", "0", "-t", "4"])
            c.stat("states")
            if not isinstance(rc, int) or rc < 0 or len(out) == 16 or len(out + err) < 20:
                c.fail("cli/refuse/" + k, "components that do not exist were not refused (status %s, %d bytes written)" % (rc, len(out)), {"args": " ".join(a)})
    finally:
        cli.close()


def parse_export(txt):
    """A formatted export -> (comment text, header dict, list of number strings)."""
    com, hdr, nums = [], {}, []
    for ln in txt.splitlines():
        if ln.startswith("#"):
            com.append(ln)
        elif ":" in ln and not nums:
            k, v = ln.split(":", 1)
            hdr[k.strip()] = v.strip()
        elif ln.strip():
            nums.append(ln.strip())
    return "\n".join(com), hdr, nums


def check_export(fmt, data, name, seed, n, words, unis):
    """None if `data' is the export of these numbers, else what is wrong."""
    if fmt == 0:
        e = struct.pack("<%dI" % n, *words[:n])
        return None if data == e else "binary export is %d bytes %s.., expected %d bytes %s.." % (len(data), data[:16].hex(), len(e), e[:16].hex())
    com, hdr, nums = parse_export(data.decode(errors="replace"))
    if name not in com:
        return "header does not name generator %s" % name
    if seed is not None and str(seed) not in com.replace("=", " ").split():
        return "header does not state seed %s" % seed
    if hdr.get("count") != str(n):
        return "header count is %s, %d numbers were asked for" % (hdr.get("count"), n)
    if hdr.get("numbit") != "32" or hdr.get("type") not in (("d", "i", "u") if fmt == 1 else ("e", "E", "f", "F", "g")):
        return "header type/numbit is %s/%s" % (hdr.get("type"), hdr.get("numbit"))
    if len(nums) != n:
        return "%d numbers written, %d asked for" % (len(nums), n)
    try:
        if fmt == 1:
            if [int(x) for x in nums] != words[:n]:
                return "numbers %s.., expected %s.." % (nums[:4], words[:4])
        else:
            if any(abs(float(x) - u) > 0.51e-10 for x, u in zip(nums, unis)):
                return "numbers %s.., expected %s.." % (nums[:4], unis[:4])
    except ValueError:
        return "a line is not a number: %s" % nums[:4]
    return None


def c06(c):
    dump = vp.harness("dump", ["dump_rng.c"])
    gens = [(g, n) for g, _, _, n in rng_list() if g < 500 and g not in (200, 201, 202, 207)]
    thorough = c.tier == "thorough"
    seeds = [1, 12345, 4294967295] if thorough else [1, 4294967295]
    counts = [1, 2, 3, 17, 100] if thorough else [1, 17]
    NM = max(counts)
    reqs = [(g, s, NM if g not in (13, 206) else 9000) for g, _ in gens for s in seeds]
    ref = dict(zip([(r[0], r[1]) for r in reqs], rng_streams(reqs)))
    cli = Cli()
    try:
        # an input file is never the target of an export
        raw = struct.pack("<64I", *[(i * 2654435761) & 0xffffffff for i in range(64)])
        txt = b"#\ntype: d\ncount: 20\nnumbit: 32\n" + b"".join(b"%10u\n" % ((i * 40503977) & 0xffffffff) for i in range(20))
        for g, gn, data in ((201, "file_input_raw", raw), (202, "file_input", txt)):
            for how in (g, gn):
                for fmt in (0, 1, 2):
                    for n in (1, 5, 20, 100):
                        path = os.path.join(cli.dir, "in")
                        open(path, "wb").write(data)
                        rc, out, err = cli.run(["-g", how, "-f", path, "-S", "1", "-o", "-O", fmt, "-t", n])
                        c.stat("states"); c.stat("transitions", n); c.stat("traces")
                        if open(path, "rb").read() != data or rc == "timeout" or rc < 0 or not (out + err).strip():
                            c.fail("input-file/%s/O%d/n%d" % (how, fmt, n), "exporting from a file generator changed its input file", {"rc": rc})
        # the output goes to the file named, whatever its name; a file that cannot be opened is reported
        nd = os.path.join(cli.dir, "names")
        os.mkdir(nd)
        for nm in ("x", "7", "ab", ".h", "a b", "a" * 60, "sub-1", "_", "x" * 128, "./y", "z.txt", os.path.join(nd, "full")):
            for fmt in (0, 2):
                rc, out, err = cli.run(["-g", "13", "-S", "3", "-o", "-O", fmt, "-t", "9", "-f", nm], cwd=nd)
                rc2, out2, err2 = cli.run(["-g", "13", "-S", "3", "-o", "-O", fmt, "-t", "9"], cwd=nd)
                got = open(os.path.join(nd, nm), "rb").read() if os.path.exists(os.path.join(nd, nm)) else None
                left = [f for f in os.listdir(nd)]
                c.stat("states"); c.stat("transitions", 9); c.stat("traces")
                if got is None or got != out2 or out.strip() or len(left) != 1 or rc != 0:
                    c.fail("name/%s/O%d" % (os.path.basename(nm)[:30], fmt), "export to the file '%s' did not put exactly the exported numbers into that file" % nm, {"rc": rc, "stdout": out.decode(errors="replace")[:200], "files": left, "err": err.decode(errors="replace")[:200]})
                for f in left:
                    os.unlink(os.path.join(nd, f))
        for bad in (os.path.join(nd, "missing", "f"), nd, "missing/f"):
            for fmt in (0, 1, 2):
                rc, out, err = cli.run(["-g", "13", "-S", "3", "-o", "-O", fmt, "-t", "9", "-f", bad], cwd=nd)
                c.stat("states"); c.stat("traces")
                if rc == "timeout" or rc < 0 or out.strip() or not err.strip() or os.listdir(nd):
                    c.fail("unwritable/%s/O%d" % (os.path.basename(bad), fmt), "export to a file that cannot be opened was not refused with a message", {"rc": rc, "stdout": out.decode(errors="replace")[:200]})
        def one(j):
            g, name, s, fmt, n, tgt = j
            key = "gen%d/seed%d/O%d/n%d/%s" % (g, s, fmt, n, tgt)
            path = os.path.join(cli.dir, key.replace("/", "_"))
            a = ["-g", g, "-S", s, "-o", "-O", fmt, "-t", n]
            if tgt == "file":
                a += ["-f", path]
                if s != seeds[0]:          # an earlier, longer export lies there already
                    open(path, "wb").write(b"#7" * 9000)
            elif tgt == "dash":
                a += ["-f", "-"]
            rc, out, err = cli.run(a)
            if tgt == "file":
                data = open(path, "rb").read() if os.path.exists(path) else b""
            else:
                data = out
            w, u = ref[(g, s)]
            msg = check_export(fmt, data, name, s, n, w, u)
            back = 0
            if msg is None and tgt == "file" and (fmt != 0 or n >= 16):
                m = n + 3
                r = subprocess.run([dump, "file", "201" if fmt == 0 else "202", path, str(m)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                back = m
                try:
                    got = json.loads(r.stdout)
                    if fmt < 2:
                        exp = [w[i % n] for i in range(m)]
                        if got != exp:
                            msg = "read back as %s.., exported %s.." % (got[:4], exp[:4])
                    else:
                        if any(abs(got[i] / 4294967295.0 - u[i % n]) > 6e-10 for i in range(m)):
                            msg = "read back as %s.., exported %s.." % ([x / 4294967295.0 for x in got[:4]], u[:4])
                except ValueError:
                    msg = "the exported file cannot be read back: " + r.stderr[-200:]
            if tgt == "file" and os.path.exists(path):
                os.unlink(path)
            return key, a, msg, n + back
        jobs = [(g, nm, s, f, n, t) for g, nm in gens for s in seeds for f in (0, 1, 2) for n in counts for t in (("file", "stdout", "dash") if g in (13, 206, 203) or thorough else ("file",))]
        jobs += [(g, dict(gens)[g], s, f, n, t) for g in (13, 206) for s in seeds for f in (0, 1, 2) for n in (1023, 1024, 1025, 9000) for t in ("file", "stdout")]
        for key, a, msg, k in pmap(one, jobs):
            c.stat("states"); c.stat("transitions", k); c.stat("traces")
            if msg:
                c.fail(key, msg, {"args": " ".join(map(str, a))})
        c.sample("dieharder -g <every software generator> -S <seed> -o -O <0,1,2> -t <n> -f file: file compared with the generator's own stream, then read back through generators 201/202 past one wrap-around")
        # without -S the header states the seed that reproduces the numbers
        for g in (13, 203, 204, 205, 206, 208, 209, 400, 403):
            nm = dict(gens)[g]
            rc, out, err = cli.run(["-g", g, "-o", "-O", 1, "-t", 5])
            com, hdr, nums = parse_export(out.decode(errors="replace"))
            sd = com.replace("=", " ").split()
            sd = sd[sd.index("seed") + 1] if "seed" in sd else None
            c.stat("states"); c.stat("traces")
            if sd is None or not sd.isdigit():
                c.fail("random-seed/gen%d" % g, "the header states no seed", {"out": out.decode(errors="replace")[:400]})
                continue
            w, u = rng_streams([(g, int(sd), 5)])[0]
            msg = check_export(1, out, nm, int(sd), 5, w, u)
            if msg:
                c.fail("random-seed/gen%d" % g, "with the seed stated in the header (%s): %s" % (sd, msg), {})
        # unbounded binary export
        for g in (13, 206, 208):
            w = rng_streams([(g, 7, 40000)])[0][0]
            p = subprocess.Popen([cli.exe, "-g", str(g), "-S", "7", "-o", "-O", "0", "-t", "0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=cli.dir)
            d = b""
            while len(d) < 160000:
                x = p.stdout.read(160000 - len(d))
                if not x:
                    break
                d += x
            p.kill(); p.wait()
            c.stat("states"); c.stat("traces"); c.stat("transitions", 40000)
            if d != struct.pack("<40000I", *w):
                c.fail("unbounded/gen%d" % g, "the unbounded binary export differs from the generator's stream within the first 40000 words", {})
        # a test run on the exported file gives the same rows as on the generator
        for g in (13, 206, 208):
            rows = []
            n = 60000
            for fmt, rg in ((None, g), (0, 201), (1, 202)):
                path = os.path.join(cli.dir, "rt%d_%s" % (g, fmt))
                if fmt is not None:
                    cli.run(["-g", g, "-S", 3, "-o", "-O", fmt, "-t", n, "-f", path])
                for d in (100, 101, 15, 209 if False else 102):
                    a = ["-g", rg, "-S", 3, "-d", d, "-t", 3000, "-p", 4, "-D", "test_name", "-D", "pvalues"]
                    if fmt is not None:
                        a += ["-f", path]
                    rc, out, err = cli.run(a)
                    rows.append((fmt, d, out))
            ref_rows = {d: o for f, d, o in rows if f is None}
            for f, d, o in rows:
                c.stat("states"); c.stat("traces")
                if o != ref_rows[d] or b"|" not in o:
                    c.fail("same-result/gen%d/O%s/test%d" % (g, f, d), "test %d on the exported numbers reports %r, on the generator %r" % (d, o[-200:], ref_rows[d][-200:]), {})
    finally:
        cli.close()


TABLE = {"C06": c06, "C08": c08, "C07": c07, "C05": c05, "C04": c04, "C03": c03, "C01": c01, "C02": c02}


def run(prop, tier):
    c = vp.Check(prop, tier)
    TABLE[prop](c)
    return c.finish()
META = {
 "C01": {"technique": "explicit-state model + Eulerian tour of all request transitions on the real code",
         "note": "Every (buffer position, previous size, next size) transition of the request machine is executed on the real code for all 32 widths and compared with a bit-string model; streams are a fixed family."},
 "C02": {"technique": "exhaustive enumeration of the helpers' argument space on the real code against per-bit definitions",
         "note": "Every offset x length x vector length (bounded) x width is executed on the real helper; word contents are a fixed family of single-bit, constant and mixed patterns."},
 "C03": {"technique": "stateless exploration of all read/reseed/reopen histories up to a depth on the real reader against a pure model",
         "note": "Exhaustive over file lengths (bytes) in a range and operation histories to a depth; lengths beyond the range are not explored."},
 "C04": {"technique": "stateless exploration of all read/reseed/reopen histories x formats x header layouts on the real reader against a pure model",
         "note": "Exhaustive over declared formats, header layouts, counts and histories within bounds; number spellings are a boundary-value family."},
 "C05": {"technique": "exhaustive exploration of all write-chunk schedules and truncation points of a pipe on the real reader",
         "note": "All 2^(L-1) cuttings of streams up to L bytes with the reader draining each chunk, all truncation points; longer streams through the program at selected lengths."},
 "C06": {"technique": "exhaustive enumeration of generators x formats x counts x seeds through the real program, replayed against independent streams and read back",
         "note": "Counts and seeds are bounded; every registered generator and every output format and target is covered."},
 "C07": {"technique": "stateless exploration of all seed/draw/buffer histories up to a depth on the real generators against fresh-process references",
         "note": "Every registered generator, all histories up to the depth over a seed alphabet; GSL's own generators with ordinary seeds only."},
 "C08": {"technique": "exhaustive enumeration of ordered component lists x seeds x reseed points on the real generator against the exclusive-or model",
         "note": "All lists to length 2 and bounded lists to length 3; components with independent state."},
}


def c09(c):
    exe = vp.harness("c09", ["c09_samples.c", "vp.c", "script.c"], variant="asan")
    c.run_harness(exe)


TABLE["C09"] = c09
META["C09"] = {"technique": "stateless exploration of all create/run/extend/clear/recreate histories up to a depth on the real code against a list model",
               "note": "Exhaustive over histories to the depth x a parameter grid, with a recording test function and address sanitizer; the combined value is recomputed over the model's own list."}


def c10(c):
    exe = vp.harness("c10", ["c10_escalate.c", "vp.c", "script.c"])
    c.run_harness(exe)


TABLE["C10"] = c10
META["C10"] = {"technique": "stateless exploration of all sequences of sample results through the real escalation loop against the stop rule",
               "note": "All result sequences over a value alphabet up to the sample ceiling x modes x thresholds x steps, run through execute_test; rows and sample counts compared with the rule."}


def c13(c):
    exe = vp.harness("c13", ["c13_output.c", "vp.c", "script.c"])
    c.run_harness(exe)
    cli = Cli()
    try:
        gens = [(g, n) for g, _, _, n in rng_list() if g not in (200, 201, 202, 207) and not 500 <= g < 600]
        jobs = [(g, n, how, s, st) for g, n in gens for how in (str(g), n) for s in (77, 4000000001) for st in (0, 1)]

        def one(j):
            g, n, how, s, st = j
            return j, cli.run(["-g", how, "-S", s, "-s", st, "-d", "100", "-t", "200", "-p", "1", "-D", "show_rng", "-D", "show_num", "-D", "seed", "-D", "prefix", "-D", "no_whitespace", "-D", "test_name"])
        for (g, n, how, s, st), (rc, out, err) in pmap(one, jobs):
            rows = [l.rstrip("|").split("|") for l in out.decode(errors="replace").splitlines() if l and not l.startswith("#")]
            e = [["1", n, str(g)] + ([str(s)] if not st else []), ["2", "sts_monobit", "100"] + ([str(s)] if st else [])]
            c.stat("states"); c.stat("transitions", 2); c.stat("traces")
            if rows != e:
                c.fail("cli/generator-line/%s/seed%d/s%d" % (how, s, st), "lines %s, expected %s" % (rows, e), {"rc": rc})
    finally:
        cli.close()


TABLE["C13"] = c13
META["C13"] = {"technique": "exhaustive enumeration of output-flag sets and threshold p-values through the real report code against a field model",
               "note": "All combinations of the table flags (x strategy x file input), each in a fresh process; verdicts at and around thresholds; whole-program runs for the generator line."}


def c14(c):
    exe = vp.harness("c14", ["c14_parse.c", "vp.c"])
    c.run_harness(exe)
    tests, gens = test_list(), rng_list()
    names = {g: n for g, _, _, n in gens}
    soft = [g for g in names if g not in (200, 201, 202, 207) and not 500 <= g < 600]
    F = ["-D", "test_name", "-D", "show_num", "-D", "ntuple", "-D", "psamples", "-D", "pvalues", "-D", "no_whitespace"]
    cli = Cli()

    def rows(out):
        return [l.split("|") for l in out.decode(errors="replace").splitlines() if l and not l.startswith("#")]
    try:
        # every test by number and by name: the same test, the one named
        def t1(j):
            num, name, n = j
            big = {7: 2000000, 17: 20000, 205: 100000, 206: 2000, 207: 20000, 208: 20000, 209: 300000, 211: 67108864}
            a = ["-g", "13", "-S", "5", "-p", "2", "-n", str(n), *F] + (["-t", big[num]] if num in big else [])
            return j, cli.run(["-d", num] + a), cli.run(a + ["-d", name])
        for (num, name, n), r1, r2 in pmap(t1, [(t[0], t[1], {200: 3, 201: 3, 202: 4, 203: 5}.get(t[0], 0)) for t in tests]):
            key = "cli/test/%d" % num
            c.stat("states", 2); c.stat("transitions", 2); c.stat("traces", 2)
            w = rows(r1[1])
            if not w or any(x[0] != name or x[1] != str(num) for x in w):
                c.fail(key, "-d %d reported %s, not test %s" % (num, w[:2], name), {})
            elif r1 != r2:
                c.fail(key, "-d %d and -d %s gave different reports" % (num, name), {"by number": r1[1].decode()[-400:], "by name": r2[1].decode()[-400:], "err": r2[2].decode()[-300:]})
            if any(int(x[3]) != 2 for x in w):
                c.fail(key + "/psamples", "-p 2 ran %s samples" % w[0][3], {})
        # unknown tests
        reg = {t[0] for t in tests}
        bad = [str(i) for i in range(0, 1003) if i not in reg] + ["-1", "-2", "99999", "2147483647", "nosuch", "", "sts_monobi", "sts_monobitt", "STS_MONOBIT", "100foo", "1 0", "0x10", "10.5"]

        def t2(a):
            return a, cli.run(["-g", "13", "-S", "1", "-p", "1", "-t", "1000", "-d", a, *F])
        for a, (rc, out, err) in pmap(t2, bad):
            c.stat("states"); c.stat("traces")
            if rows(out) or rc == "timeout" or rc < 0 or not (out + err).strip():
                c.fail("cli/unknown-test/" + a, "an unknown test was not refused (status %s)" % rc, {"out": out.decode(errors="replace")[-300:]})
        # generators by number and by name select the stream of that generator
        N = 4
        ref = dict(zip(soft, (x[0] for x in rng_streams([(g, 9, N) for g in soft]))))

        def g1(j):
            g, by = j
            return j, cli.run(["-S", "9", "-t", N, "-o", "-O", "0", "-g", g if by == 0 else names[g]])
        for (g, by), (rc, out, err) in pmap(g1, [(g, by) for g in soft for by in (0, 1)]):
            c.stat("states"); c.stat("transitions", N); c.stat("traces")
            if out != struct.pack("<%dI" % N, *ref[g]):
                c.fail("cli/generator/%s" % (g if by == 0 else names[g]), "the stream is not that of generator %d (%s)" % (g, names[g]), {"rc": rc, "err": err.decode(errors="replace")[-300:]})
        badg = [str(i) for i in range(0, 1003) if i not in names] + ["-2", "99999", "-2147483648", "nosuch", "mt1993", "mt19937x", "MT19937", "13abc", "0x0d"]

        def g2(a):
            return a, cli.run(["-S", "9", "-t", N, "-o", "-O", "0", "-g", a])
        for a, (rc, out, err) in pmap(g2, badg):
            c.stat("states"); c.stat("traces")
            if len(out) == 4 * N or rc == "timeout" or rc < 0 or not (out + err).strip():
                c.fail("cli/unknown-generator/" + a, "an unknown generator was not refused (status %s, %d bytes)" % (rc, len(out)), {})
        # what the program runs is the library's test on that generator at that generator's own width
        tt = [(100, 500, 0), (101, 500, 0), (0, 20, 0), (8, 3000, 0), (2, 200, 0), (200, 300, 4), (206, 700, 0), (206, 2000, 64), (207, 400, 0), (208, 3000, 0), (209, 20000, 0), (203, 300, 3)]
        jobs = [(g, 9 + g, t, ts, n) for g in soft for t, ts, n in tt if any(t == x[0] for x in tests)]
        direct = vp.harness("direct", ["direct.c"])

        def dr(part):
            r = subprocess.run([direct], input="".join("%d %d %d %d %d\n" % j for j in part), stdout=subprocess.PIPE, text=True)
            return [l.split()[1:] for l in r.stdout.splitlines() if l.startswith("P")]
        parts = [jobs[i::16] for i in range(16)]
        want = {}
        for part, res in zip(parts, pmap(dr, parts)):
            want.update(zip(part, res))

        def wd(j):
            g, s, t, ts, n = j
            return j, cli.run(["-g", g, "-S", s, "-s", "1", "-d", t, "-t", ts, "-n", n, "-p", "1", "-D", "test_name", "-D", "pvalues", "-D", "no_whitespace"])
        for (g, s, t, ts, n), (rc, out, err) in pmap(wd, jobs):
            c.stat("states"); c.stat("transitions"); c.stat("traces")
            e, got = want.get((g, s, t, ts, n)), [r[1] for r in rows(out)]
            if e is None or "died" in e:
                continue
            if len(got) != len(e) or any(abs(float(x) - float(y)) > 1.01e-8 for x, y in zip(got, e)):
                c.fail("cli/width/gen%d/test%d/n%d" % (g, t, n), "-g %d -d %d -t %d -n %d reports %s; that test on that generator gives %s" % (g, t, ts, n, got, e), {"out": out.decode(errors="replace")[-300:], "rc": rc})
        # refused command lines never run a test
        ok = ["-d", "100", "-g", "13", "-S", "1", "-t", "1000", "-p", "1", *F]
        for k, extra in (("option", ["-j"]), ("option2", ["-e", "5"]), ("longopt", ["--foo"]), ("flag", ["-D", "nosuchflag"]), ("leftover", ["junk"]), ("leftover2", ["junk", "more"]), ("missing-arg", ["-d"])):
            for pos in ("front", "back"):
                if pos == "front" and k in ("missing-arg",):
                    continue
                a = extra + ok if pos == "front" else ok + extra
                rc, out, err = cli.run(a)
                c.stat("states"); c.stat("traces")
                if any(r[0] == "sts_monobit" for r in rows(out)) or not (out + err).strip() or rc == "timeout" or rc < 0:
                    c.fail("cli/refuse/%s/%s" % (k, pos), "an invalid command line was not refused", {"args": " ".join(a), "out": out.decode(errors="replace")[-300:]})
        # listings
        rc, out, err = cli.run(["-l"])
        c.stat("states"); c.stat("traces")
        got = re.findall(r"-d (\d+)\s", out.decode())
        if sorted(map(int, got)) != sorted(reg):
            c.fail("cli/list-tests", "-l lists %s, registered are %s" % (got, sorted(reg)), {})
        rc, out, err = cli.run(["-g", "-1"])
        c.stat("states"); c.stat("traces")
        got = [(int(a), b.strip()) for l in out.decode().splitlines() if l.startswith("|") for a, b in re.findall(r"(\d{3}) ([^|]+)\|", l)]
        if sorted(got) != sorted((g, n) for g, n in names.items()):
            c.fail("cli/list-generators", "-g -1 lists %s" % sorted(set(got) ^ set(names.items())), {})
        rc, out, err = cli.run(["-F"])
        fl = re.findall(r"^\s*(\d+)\s+(\w+)\s*$", out.decode(), re.M)
        c.stat("states"); c.stat("traces")
        if [int(a) for a, _ in fl] != [0] + [1 << i for i in range(18)] or len({b for _, b in fl}) != 19:
            c.fail("cli/list-flags", "-F lists %s" % fl, {})

        def fl1(x):
            a = ["-g", "13", "-S", "1", "-d", "100", "-t", "1000", "-p", "1"]
            return x, cli.run(a + ["-D", x[0], "-D", "8" if x[0] not in ("0", "8") else "16384"]), cli.run(a + ["-D", x[1], "-D", "test_name" if x[0] not in ("0", "8") else "show_num"])
        for x, r1, r2 in pmap(fl1, [x for x in fl if x[1] not in ("rate", "default")]):
            c.stat("states", 2); c.stat("traces", 2)
            if r1 != r2 or not r1[1]:
                c.fail("cli/flag/" + x[1], "-D %s and -D %s gave different reports" % x, {})
        # options in any order, through the whole program
        opts = [["-d", "203"], ["-g", "205"], ["-S", "3"], ["-n", "2"], ["-t", "500"], ["-p", "3"]]
        outs = pmap(lambda p: (p, cli.run(sum(map(list, p), []) + ["-c", ","] + F)), list(itertools.permutations(opts)))
        for p, r in outs:
            c.stat("states"); c.stat("transitions", len(opts)); c.stat("traces")
            if r != outs[0][1] or b"rgb_lagged_sum,203,2,3," not in r[1]:
                c.fail("cli/order/" + "".join(o[0] for o in p), "the report depends on the order of the options", {"out": r[1].decode()[-300:]})
        limits(c, cli, rows, F)
    finally:
        cli.close()


def limits(c, cli, rows, F):
    """Repeated and over-long choices, under the address sanitizer: taken as given or refused, never cut or spilled."""
    san = Cli("asan")
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99"}
    try:
        def bad(r):
            return r[0] in (99, "timeout") or r[0] < 0
        jobs = []
        for k in (2, 3, 50, 98, 99, 100, 101, 102, 130, 200):        # the combining generator and k-1 components (13, or 13 and 14 by turns)
            jobs.append(("generators/%d" % k, ["-g", "207"] + sum((["-g", "13"] for i in range(k - 1)), []) + ["-S", "1", "-o", "-O", "0", "-t", "4"], None))
            jobs.append(("names/%d" % k, ["-g", "XOR"] + sum((["-g", "mt19937" if i & 1 else "taus"] for i in range(k - 1)), []) + ["-S", "1", "-o", "-O", "0", "-t", "4"], None))
        for k in (1, 2, 50, 99, 100, 101, 102, 130, 300):
            jobs.append(("seeds/%d" % k, ["-g", "13"] + sum((["-S", str(1000 + i)] for i in range(k)), []) + ["-o", "-O", "0", "-t", "4"], 1000 + k - 1))
        for o in ("-g", "-d", "-D"):
            for n in (19, 20, 21, 126, 127, 128, 129, 255, 1023, 1024, 1025, 5000):
                jobs.append(("long%s/%d" % (o, n), ["-S", "1", "-t", "500", "-p", "1"] + ([] if o == "-g" else ["-g", "13"]) + ([] if o == "-d" else ["-d", "100"]) + F + [o, "sts_monobit" * 0 + "m" * n], "refuse"))
        for (key, a, exp), r in zip(jobs, pmap(lambda j: san.run(j[1], env=env), jobs)):
            c.stat("states"); c.stat("transitions", len(a)); c.stat("traces")
            if bad(r):
                c.fail("limits/" + key, "the program died or touched memory outside its tables (status %s)" % r[0], {"err": r[2].decode(errors="replace")[:600]})
            elif exp == "refuse" and (any(x[0] == "sts_monobit" for x in rows(r[1])) or not (r[1] + r[2]).strip()):
                c.fail("limits/" + key, "an unknown choice was not refused", {})
            elif isinstance(exp, int) and r[1] != cli.run(["-g", "13", "-S", exp, "-o", "-O", "0", "-t", "4"])[1]:
                c.fail("limits/" + key, "the seed used is not the last one given (%d)" % exp, {})
        # file names of every length around the limits: exactly the file named is read or written, or the name is refused
        data = bytes((i * 73 + (i >> 3) * 31) & 255 for i in range(4000))
        other = bytes((i * 57 + (i >> 2) * 13 + 9) & 255 for i in range(4000))
        base = os.path.join(san.dir, "n"); os.makedirs(base)
        root = base
        lens = [60, 100, 126, 127, 128, 129, 130, 160, 200, 255, 256, 257, 511, 512, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 1400]
        for L in lens:
            d = root
            while len(d) + 1 + 120 < L - 1:
                nx = os.path.join(d, "d" * 100)
                if len(nx) + 20 > L:
                    break
                d = nx
                os.makedirs(d, exist_ok=True)
            rest = L - len(d) - 1
            if rest < 1 or rest > 250:
                continue
            f = os.path.join(d, "f" * rest)
            for cut in [k for k in (126, 127, 128, 255, 256, 511, 512, 1022, 1023) if k < L]:      # decoys under every shorter name
                q = f[:cut]
                if not os.path.exists(q) and not q.endswith("/"):
                    open(q, "wb").write(other)
            open(f, "wb").write(data)
            want = cli.run(["-g", "201", "-f", "x", "-d", "100", "-S", "1", "-t", "100", "-p", "2", *F], cwd=base) if os.path.exists(os.path.join(base, "x")) else None
            if want is None:
                open(os.path.join(base, "x"), "wb").write(data)
                want = cli.run(["-g", "201", "-f", "x", "-d", "100", "-S", "1", "-t", "100", "-p", "2", *F], cwd=base)
            r = san.run(["-g", "201", "-f", f, "-d", "100", "-S", "1", "-t", "100", "-p", "2", *F], env=env)
            c.stat("states"); c.stat("traces")
            if bad(r) or (rows(r[1]) and rows(r[1]) != rows(want[1])) or not (r[1] + r[2]).strip():
                c.fail("limits/file-in/%d" % L, "reading a file whose name has %d characters: status %s, report %s, expected %s" % (L, r[0], rows(r[1])[:1], rows(want[1])[:1]), {"err": r[2].decode(errors="replace")[:500]})
            def snap():
                return {q: open(q, "rb").read() for cut in range(len(base) + 2, L) for q in (f[:cut],) if os.path.isfile(q)}
            before = snap()
            os.unlink(f)
            r = san.run(["-g", "13", "-S", "5", "-f", f, "-o", "-O", "0", "-t", "9"], env=env)
            c.stat("states"); c.stat("traces")
            ref = cli.run(["-g", "13", "-S", "5", "-o", "-O", "0", "-t", "9"])[1]
            ok = (os.path.exists(f) and open(f, "rb").read() == ref) or (not os.path.exists(f) and (r[1] + r[2]).strip())
            if bad(r) or snap() != before or not ok:
                c.fail("limits/file-out/%d" % L, "exporting to a name of %d characters: status %s, %s" % (L, r[0], "another file was changed" if snap() != before else "file not written and not refused"), {"err": r[2].decode(errors="replace")[:500]})
            for cut in range(len(base) + 2, L + 1):
                if os.path.isfile(f[:cut]):
                    os.unlink(f[:cut])
    finally:
        san.close()


TABLE["C14"] = c14
META["C14"] = {"technique": "exhaustive exploration of option sequences in all orders through the real parser against a parameter model, and enumeration of all names and numbers through the program",
               "note": "All option sequences to the depth over an option alphabet; every test and generator by name and number, every unregistered number 0-999 refused."}


SCHEDULE = ([(t, None) for t in list(range(0, 18)) + [100, 101, 102]] + [(200, n) for n in range(1, 13)] + [(201, n) for n in range(2, 6)]
            + [(202, n) for n in range(2, 6)] + [(203, n) for n in range(0, 33)] + [(t, None) for t in range(204, 212)])


def c15(c):
    exe = vp.harness("c15", ["c15_battery.c", "vp.c", "script.c"])
    cli = Cli()
    try:
        with __import__("concurrent.futures").futures.ThreadPoolExecutor(3) as ex:
            fs = [(g, m, ex.submit(cli.run, ["-a", "-m", m, "-g", g, "-S", "1", "-s", s, "-D", "test_name", "-D", "show_num", "-D", "ntuple", "-D", "tsamples", "-D", "psamples", "-D", "no_whitespace"], b"", 850))
                  for g, m, s in ([("13", "0.01", "1")] if c.tier == "quick" else [("13", "0.01", "0"), ("205", "0.01", "1"), ("13", "0.02", "1")])]
            c.run_harness(exe, nshards=7)
            tests = {t[0]: t for t in test_list()}
            for g, m, f in fs:
                rc, out, err = f.result()
                rows = [l.split("|") for l in out.decode(errors="replace").splitlines() if l.count("|") == 4]
                k = 0
                for t, n in SCHEDULE:
                    num, name, nk, ps, ts = tests[t]
                    for j in range(nk):
                        c.stat("states"); c.stat("transitions")
                        r = rows[k] if k < len(rows) else None
                        k += 1
                        p = max(1, int(ps * float(m)))
                        if r is None or r[0] != name or r[1] != str(num) or r[4] != str(p) or (n is not None and r[2] != str(n)) or (ts and r[3] != str(ts)):
                            c.fail("cli/all/g%s/m%s" % (g, m), "row %d is %s, expected test %s (%d) n-tuple %s with %d x %d samples" % (k, r, name, num, n, ts, p), {"rc": rc})
                            break
                    else:
                        continue
                    break
                if k < len(rows):
                    c.fail("cli/all/g%s/m%s/extra" % (g, m), "unscheduled row %s" % rows[k], {})
                c.stat("traces")
    finally:
        cli.close()


TABLE["C15"] = c15
META["C15"] = {"technique": "exhaustive enumeration of the battery's schedule over multipliers, n-tuples and modes with recording tests through the real driver, plus whole-program runs",
               "note": "Every registered test, every scheduled n-tuple, single runs of every test x n-tuple 0-33; the real battery is run end to end with the smallest multiplier."}


def c16(c):
    exe = vp.harness("c16", ["c16_history.c", "vp.c"])
    for g in ("13", "39", "201") if c.tier == "quick" else ("13", "39", "201", "206", "50", "51", "404"):
        c.run_harness(exe, ["--gen", g], timeout=800, label="c16_g" + g)


TABLE["C16"] = c16
META["C16"] = {"technique": "exhaustive exploration of all ordered pairs of test configurations (de Bruijn sequence) on the real driver against fresh-process references",
               "note": "Every ordered pair of about 48 test configurations per generator (32-bit, narrower, file), in long histories; configurations are small sample sizes."}


def c11(c):
    exe = vp.harness("c11", ["c11_ks.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c11")


TABLE["C11"] = c11
META["C11"] = {"technique": "exhaustive enumeration of samples (all sequences over a value grid for small n, all multisets, shape families up to n=12000) on the real combination functions against an independent exact evaluation",
               "note": "All sequences of up to 4 values (thorough 6) over a 9-value grid and all multisets of up to 7 (10) over a 5-value grid for each of the four methods, plus shape families for 30 sample sizes up to 12000, compared with an independent exact Kolmogorov evaluation (Poisson-process recursion, long double) or the published Kuiper series."}


def c12(c):
    exe = vp.harness("c12", ["c12_gof.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c12")


TABLE["C12"] = c12
META["C12"] = {"technique": "exhaustive enumeration of all small tables of observed and expected counts on the real routines against the textbook statistics and an independent chi-square/normal tail",
               "note": "All tables of up to 4 cells (thorough 5) over 4x4 observed/expected values x 4 cutoffs x preset or computed degrees of freedom, all small count vectors for the Poisson, geometric, binomial, Pearson, G and two-way routines, a grid for the normal deviate; long vectors as structured families."}


def c17(c):
    exe = vp.harness("c17", ["c17_bitfreq.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c17")


TABLE["C17"] = c17
META["C17"] = {"technique": 'exhaustive enumeration of bounded word streams (all streams of small total length; all periodic streams of period <=3 over a five-word alphabet; a structured family) x generator widths x sample sizes x parameters on the real test functions, against independently computed statistics',
               "note": 'All streams of up to 12 bits (thorough 16) for monobit and runs at widths 1-4; at 7 to 10 widths all periodic streams of period <=2 or 3 over a five-word alphabet plus 13 structured streams, 8 sample sizes, n-tuples 1-12, two consecutive runs each so the number of words drawn counts.'}


def c18(c):
    exe = vp.harness("c18", ["c18_missing.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c18")


TABLE["C18"] = c18
META["C18"] = {"technique": "exhaustive enumeration of bounded families of word streams x generator widths x sample sizes on the real missing-word tests, the exact word set rebuilt independently bit by bit",
               "note": "Mixed, periodic and counting streams plus constant prefixes of every length up to 24 (thorough 60) groups before a mixed tail, 8 to 10 widths, sample sizes 0-7 and around 2^21; consecutive runs on the same stream so that the number of words drawn counts. Streams longer than the sample are not enumerated exhaustively (2^21 words)."}


def c19(c):
    exe = vp.harness("c19", ["c19_count1s.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c19")


TABLE["C19"] = c19
META["C19"] = {"technique": 'exhaustive enumeration of bounded word streams (all periodic streams of period <=3 over a five-word alphabet; constant prefixes; a structured family) x generator widths x sample sizes x parameters on the real test functions, against independently computed statistics',
               "note": 'All byte values and all periodic streams of small period, 7 to 10 widths, several sample sizes, consecutive runs on one stream.'}


def c20(c):
    exe = vp.harness("c20", ["c20_rank.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c20")


TABLE["C20"] = c20
META["C20"] = {"technique": 'exhaustive enumeration of all bit matrices up to a size on the real rank routine, and of bounded word streams x widths x sample sizes on the two rank tests, against an independent elimination',
               "note": 'All matrices of up to 16 bits (thorough 20) of every shape, structured matrices of every rank up to 72x72 (100x100); the tests on all periodic streams of small period and constant prefixes of every length within three matrices, 7 to 10 widths.'}


def c21(c):
    exe = vp.harness("c21", ["c21_order.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c21")


TABLE["C21"] = c21
META["C21"] = {"technique": 'exhaustive enumeration of bounded word streams (all sequences of up to 8 numbers over small alphabets, i.e. all relative orders with ties; periodic and structured streams) x generator widths x sample sizes x parameters on the real test functions, against independently computed statistics',
               "note": 'All sequences of 2-8 numbers over alphabets of 3-6 values for the runs and permutation tests; periodic and structured streams at 7 to 10 widths, 8 sample sizes, n-tuples 0-7, overlapping and not; the weights of the overlapping test against the covariance obtained from all 9! orderings.'}


def c22(c):
    exe = vp.harness("c22", ["c22_birthdays.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c22")


TABLE["C22"] = c22
META["C22"] = {"technique": 'exhaustive enumeration of bounded word streams (all lists of up to 7 birthdays of 2-5 bits, all pairs of short samples; periodic and structured streams) x generator widths x sample sizes x parameters on the real test functions, against independently computed statistics',
               "note": 'All lists of birthdays of up to 15 bits in total (thorough 20), alone and repeated 40 times; periodic and structured streams at 9 to 14 widths, sample sizes 1-100 and 800 (3000), 11 list sizes up to and beyond the maximum.'}


def c23(c):
    exe = vp.harness("c23", ["c23_geometry.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c23")


TABLE["C23"] = c23
META["C23"] = {"technique": "exhaustive enumeration of all small point sets on a grid and all positions of the closest pair, and of bounded word streams x widths x sample sizes, on the real test functions against brute-force search",
               "note": "All point sets of up to 15 coordinate bits (thorough 18) in dimensions 2-5, the closest pair at every pair of positions of lists of up to 12 (24) points, all periodic streams of small period and 13 structured streams at 7 to 10 widths, sample sizes 2-10000, two consecutive runs each."}


def c24(c):
    exe = vp.harness("c24", ["c24_uniform.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c24")


TABLE["C24"] = c24
META["C24"] = {"technique": "exhaustive enumeration of bounded sequences of deviates (all dice sequences, all sequences over small grids; periodic and structured streams) x widths x sample sizes x lags on the real test functions, against independently played-out rules",
               "note": "All repeating sequences of up to 6 faces (thorough 7) for craps, up to 5 (6) three-bit deviates for the squeeze, all two-bit deviate sequences for sums, lagged sums and the KS self-test; periodic and structured streams at 7 to 10 widths, 7 sample sizes, lags 0-34. The number of deviates drawn is checked too. The final KS combination is the library's own (decided by C11)."}


def c25(c):
    exe = vp.harness("c25", ["c25_gcd.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c25")


TABLE["C25"] = c25
META["C25"] = {"technique": "exhaustive enumeration of number pairs at the head of a fixed stream, of zero placements, of bounded word streams x widths x sample sizes and of all sample-size histories of length 3 on the real test, against an independent Euclid tally",
               "note": "All pairs up to 64x64 (thorough 160x160), all consecutive Fibonacci pairs, a boundary-value square, all 256 placements of zero words among the first eight; periodic and structured streams at 7 to 10 widths and 10 sample sizes; all 125 histories of three of five sample sizes."}


def c26(c):
    exe = vp.harness("c26", ["c26_transform.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c26")


TABLE["C26"] = c26
META["C26"] = {"technique": "exhaustive enumeration of all repeating word patterns up to a total length, of prefixes, and of structured streams x widths x sample sizes x transform lengths on the real test functions, against a direct cosine sum and explicitly built trees",
               "note": "All repeating patterns of up to 12 bits (thorough 16) at widths 1-8, every order of the first values of a tree, constant prefixes and spikes of every length/position up to 40 (120); 7 to 10 widths, 17 sample sizes, 17 transform lengths (powers of two and not); words drawn are counted. Samples whose two largest coefficients tie within rounding are left open."}


def c27(c):
    exe = vp.harness("c27", ["c27_gens.c", "script.c", "vp.c"])
    c.run_harness(exe, [], timeout=800, label="c27")


TABLE["C27"] = c27
META["C27"] = {"technique": "exhaustive enumeration of seeds (a dense block of small and large seeds, all single-bit seeds and complements) x stream positions past several internal refills x patterns of integer/floating draws on the real generators, in lockstep with independent implementations of the published algorithms",
               "note": "AES is derived from GF(2^8) arithmetic, Threefish-512 from the Skein 1.1 round function, Knuth's generator from polynomial squaring, the rest from their recurrences; every draw is compared. Seeds above 32 bits are not covered; the Knuth generators both use the 2002 seeding."}


def c28(c):
    exe = vp.harness("c28", ["c28_safety.c", "script.c", "vp.c"], variant="asan")
    c.run_harness(exe, [], timeout=850, label="c28")


TABLE["C28"] = c28
META["C28"] = {"technique": "exhaustive enumeration of all registered tests x generator widths x extreme streams x sample sizes x n-tuples x overlap on the real library under the address sanitizer, with range and held-memory oracles",
               "note": "Every run goes through create, run, destroy; reads and writes outside allocations, non-termination, p-values outside [0,1] and memory still held after destruction (growth from one run to the next) are reported."}


def c29(c):
    exe = vp.harness("c29", ["c29_dev.c", "vp.c"], extra=("-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=open64",))
    c.run_harness(exe)


TABLE["C29"] = c29
META["C29"] = {"technique": "stateless exploration of all draw/reseed histories, read-chunk patterns and truncation points on the real device generators with the device replaced by scripted streams",
               "note": "The device is replaced where the library opens it; every history to the depth for each of the three devices; the seed source over a word family."}


FIELDS30 = ["header", "show_rng", "line_header", "ntuple", "tsamples", "psamples", "pvalues", "assessment", "prefix", "description", "seed", "rate", "show_num"]


def c30(c):
    """A seed the program chose and reported, entered with -S, repeats the run exactly."""
    cli = Cli()
    try:
        shim = os.path.join(cli.dir, "shim.so")
        subprocess.check_call(["gcc", "-w", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(vp.VERIF, "harness", "urandom_shim.c"), "-ldl"])
        words = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 12345, 0xdeadbeef, 0x10000, 0xffff]
        words += [1 << k for k in range(3, 31, 3)] if c.tier == "thorough" else []
        def ent(w, salt):
            if w is None:
                return ""
            p = os.path.join(cli.dir, "u%x_%d" % (w, salt))
            if not os.path.exists(p):
                open(p, "wb").write(struct.pack("<I", w) + bytes((i * 37 + w + salt * 11) & 255 for i in range(4096)))
            return p
        for w in words:
            ent(w, 0)
        ent(77, 1)
        gens = [g for g, _, _, n in rng_list() if g not in (200, 201, 202, 207) and not 500 <= g < 600]
        wide = [13, 206] + ([41, 50, 404] if c.tier == "thorough" else [])
        tests = [("100", "300"), ("102", "200"), ("0", "60"), ("203", "500"), ("15", "200")]
        A = lambda d, t, s: ["-d", d, "-t", t, "-p", "3", "-s", s, "-D", "header", "-D", "show_rng", "-D", "line_header", "-D", "test_name", "-D", "ntuple", "-D", "pvalues", "-D", "seed"]
        jobs = []
        for g in gens:
            for w in (words if g in wide else (words[i] for i in (0, 2, 4, 6))):
                jobs += [(g, w, "run", A(*tests[0], s)) for s in "01"] + [(g, w, "export", ["-o", "-O", f, "-t", "7"]) for f in "12"]
        for g in wide:
            for w in words:
                jobs += [(g, w, "run", A(*t, s)) for t in tests[1:] for s in "01"]
        jobs += [(g, None, "run", A(*tests[0], s)) for g in wide for s in "01"] + [(g, None, "export", ["-o", "-O", "1", "-t", "7"]) for g in wide]

        def seeds(kind, out):
            t = out.decode(errors="replace")
            if kind == "export":
                return re.findall(r"seed = (\d+)", t)
            r = []
            for l in t.splitlines():
                if "|" in l and not l.startswith("#"):
                    x = [f.strip() for f in l.rstrip("|").split("|")]
                    if x[-1].isdigit():
                        r.append(x[-1])
            return r

        def one(j):
            g, w, kind, a = j
            r1 = cli.run(["-g", g] + a, env={"LD_PRELOAD": shim, "VP_URANDOM": ent(w, 0)})
            s = seeds(kind, r1[1])
            r2 = cli.run(["-g", g, "-S", s[0]] + a, env={"LD_PRELOAD": shim, "VP_URANDOM": ent(77, 1)}) if s else None
            return j, r1, s, r2
        strip = lambda o: re.sub(rb"(?m)^#.*Copyright.*$", b"", o)
        seen = {}
        for (g, w, kind, a), r1, s, r2 in pmap(one, jobs):
            key = "gen%d/device%s/%s" % (g, "none" if w is None else "%x" % w, "_".join(x for x in a if not x.startswith("-"))[:60])
            c.stat("states", 2); c.stat("transitions", 2); c.stat("traces", 2)
            if not s or len(set(s)) != 1:
                c.fail(key, "the report of a run with a chosen seed shows %s" % (s or "no seed"), {"args": a, "out": r1[1].decode(errors="replace")[-600:], "err": r1[2].decode(errors="replace")[-300:]})
            elif r2[0] != r1[0] or strip(r2[1]) != strip(r1[1]):
                c.fail(key, "the run reported seed %s, but -S %s does not repeat it" % (s[0], s[0]), {"args": a, "first": r1[1].decode(errors="replace")[-600:], "second": r2[1].decode(errors="replace")[-600:]})
            elif w is not None:
                seen.setdefault((g, kind, tuple(a)), {}).setdefault(s[0], set()).add(w)
        for (g, kind, a), m in seen.items():
            for s, ws in m.items():
                if len(ws - {0, 1}) > 1 or (len(ws) > 1 and not ws <= {0, 1}):
                    c.fail("gen%d/same/%s" % (g, "_".join(x for x in a if not x.startswith("-"))[:60]), "different device words %s led to the same seed %s" % (sorted(ws), s), {})
        # a run with -S tests that generator's numbers for that seed, under either seeding strategy
        gl = [(g, mn, mx) for g, mn, mx, n in rng_list() if g in gens]
        full = {g: mx.bit_length() for g, mn, mx in gl if mn == 0 and mx & (mx + 1) == 0 and mx.bit_length() <= 32}
        sd = [1, 2, 12345, 4294967295, 2147483648]
        T, P = 211, 3
        reqs = [(g, s, T * P) for g in full for s in sd]
        ref = dict(zip([(g, s) for g, s, _ in reqs], (x[0] for x in rng_streams(reqs))))

        def seeded(j):
            g, s, st, rate = j
            return j, cli.run(["-g", g, "-S", s, "-s", st, "-d", "100", "-t", T, "-p", P, "-D", "test_name", "-D", "psample_values"] + (["-D", "rate"] if rate == 1 else sum([["-D", f] for f in FIELDS30], []) if rate else []))
        res = {}
        for (g, s, st, rate), (rc, out, err) in pmap(seeded, [(g, s, st, 0) for g, _, _ in gl for s in sd for st in (0, 1)] + [(g, s, st, 1) for g, _, _ in gl for s in sd[2:4] for st in (0, 1)] + [(g, sd[2], st, 2) for g, _, _ in gl for st in (0, 1)]):
            c.stat("states"); c.stat("transitions"); c.stat("traces")
            got = sorted(float(x) for x in re.findall(r"^\|([\d.]+)\|\s*$", out.decode(errors="replace"), re.M))
            key = "seeded/gen%d/seed%d/strategy%d%s" % (g, s, st, ("", "/rate", "/allfields")[rate])
            if rate and got != res.get((g, s, st)):
                c.fail(key, "generator %d with -S %d -s %d: selecting more report fields changes the numbers tested" % (g, s, st), {"p-values": got, "without": res.get((g, s, st))})
            elif not rate:
                res[g, s, st] = got
            if len(got) != P:
                c.fail(key, "the run did not report its %d p-values" % P, {"status": rc, "out": out.decode(errors="replace")[:300], "err": err.decode(errors="replace")[:300]})
            elif g in full:
                w, nb = ref[g, s], full[g] * T
                exp = sorted(0.5 * math.erfc((2 * sum(bin(x).count("1") for x in w[k * T:(k + 1) * T]) - nb) / math.sqrt(2 * nb)) for k in range(P))
                if any(abs(x - y) > 2e-8 for x, y in zip(got, exp)):
                    c.fail(key, "generator %d with -S %d -s %d: the numbers tested are not the generator's for that seed" % (g, s, st), {"p-values": got, "expected": exp})
        for (g, s, st), got in res.items():
            if st and got != res[g, s, 0]:
                c.fail("seeded/gen%d/seed%d" % (g, s), "generator %d with -S %d tests different numbers under the two seeding strategies" % (g, s), {"strategy 0": res[g, s, 0], "strategy 1": got})
        c.sample("generator 13, device word 80000000, export: reported seed entered with -S gives the same file")
    finally:
        cli.close()


TABLE["C30"] = c30
META["C30"] = {"technique": "exhaustive enumeration of generators x chosen-seed words x run modes through the real program with a scripted seed device, each run repeated from its own report",
               "note": "The device the seed comes from is replaced by scripted words; every registered software generator, export and test runs, both seeding strategies."}
