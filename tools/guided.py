"""Builds the harness with coverage counters, for the searches of the thorough tier.

The cases of a campaign are made from the random decisions of its generator. For these searches the
decisions come from byte strings, which are mutated and kept if they reach something new. proptest can
draw its decisions from bytes ("PassThrough"), but gives each nested generator half of what is left and
zeros afterwards, which a generator of histories uses up at once; the copy built here reads on from one
place and continues with pseudo-random bytes.
"""
import glob
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


def replace(s, old, new):
    if s.count(old) != 1:
        raise ValueError(f"proptest differs from what is expected here: {old!r}")
    return s.replace(old, new)


def copy_proptest(to):
    src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/proptest-1.12.0"))[0]
    shutil.copytree(src, to)
    path = os.path.join(to, "src/test_runner/rng.rs")
    with open(path) as f:
        s = f.read()
    s = replace(s, """                *off += bytes_to_copy;
                for i in bytes_to_copy .. dest.len() {
                    dest[i] = 0;
                }""", """                for i in bytes_to_copy .. dest.len() {
                    let mut x = (*off + i) as u64 ^ 0x9e37_79b9_7f4a_7c15;
                    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                    dest[i] = (x >> 32) as u8;
                }
                *off += dest.len();""")
    s = replace(s, "dest.len().min(*end - *off);",
                "dest.len().min(end.saturating_sub(*off));\n                let at = (*off).min(*end);")
    s = replace(s, "copy_from_slice(&data[*off .. *off + bytes_to_copy]);",
                "copy_from_slice(&data[at .. at + bytes_to_copy]);")
    a, b = s.index("                let len = *end - *off;\n"), s.index("                Seed::PassThrough(\n                    Some((child_start")
    s = s[:a] + """                *off += 8;
                let child_start = *off + (1 << 40);
                let child_end = *end;
""" + s[b:]
    with open(path, "w") as f:
        f.write(s)


def build(harness, target, rt, env, jobs):
    """Returns the binary, or raises RuntimeError."""
    d = os.path.join(target, "guided", rt)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    copy_proptest(os.path.join(d, "proptest"))
    shutil.copytree(os.path.join(harness, "src"), os.path.join(d, "src"))
    shutil.copy(os.path.join(harness, "Cargo.lock"), d)
    with open(os.path.join(harness, "Cargo.toml")) as f:
        toml = f.read()
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml + '\n[patch.crates-io]\nproptest = { path = "proptest" }\n')
    e = dict(env, RUSTC_WRAPPER=os.path.join(HERE, "instrument.sh"))
    r = subprocess.run(["cargo", "build", "-q", "--offline", "-j", str(jobs), "--target-dir", os.path.join(d, "target"),
                        "--features", f"rt-{rt}"], env=e, cwd=d, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError(f"building the harness with coverage ({rt}) failed:\n{r.stderr[-4000:]}")
    return os.path.join(d, "target", "debug", "harness")
