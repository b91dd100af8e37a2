"""Builds what the checks run, from the repository's current working tree.

Everything lands under /verif/build (git-ignored), keyed by a digest of the
sources it was made from, so a changed tree is always rebuilt.
"""
from __future__ import annotations

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
BUILD = VERIF / 'build'


class BuildError(Exception):
    pass


def digest(paths: list[Path], extra: str = '') -> str:
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(str(p.name).encode() + b'\0')
        h.update(p.read_bytes() + b'\0')
    return h.hexdigest()[:20]


def shim_files(*names: str) -> list[Path]:
    out: list[Path] = []
    for name in names:
        out += [p for p in (VERIF / 'rust' / name).rglob('*')
                if p.is_file() and 'target' not in p.parts]
    return out


class Lock:
    def __init__(self, name: str):
        BUILD.mkdir(exist_ok=True)
        self.f = open(BUILD / f'.{name}.lock', 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def run(cmd: list[str], cwd: Path, timeout: int = 800) -> None:
    env = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true')
    env.setdefault('CARGO_HOME', '/root/.cargo')
    env['PATH'] = env.get('PATH', '') + ':/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin'
    for var in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CFLAGS'):
        env.pop(var, None)
    r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(f'{cmd} failed:\n' + r.stdout.decode(errors='replace')[-6000:])


def prune(prefix: str, keep: Path, n: int = 6) -> None:
    olds = sorted((p for p in BUILD.glob(prefix + '-*') if p != keep),
                  key=lambda p: p.stat().st_mtime)
    for p in olds[:-n] if len(olds) > n else []:
        shutil.rmtree(p, ignore_errors=True)


def build_cref(name: str) -> Path:
    src = VERIF / 'sim' / f'{name}.c'
    out = BUILD / f'c{name}-{digest([src])}'
    so = out / f'{name}.so'
    if so.exists():
        return so
    with Lock(name):
        if not so.exists():
            tmp = BUILD / f'.tmp-{name}-{os.getpid()}'
            tmp.mkdir(parents=True, exist_ok=True)
            run(['gcc', '-O2', '-shared', '-fPIC', '-o', str(tmp / f'{name}.so'), str(src)], tmp)
            shutil.rmtree(out, ignore_errors=True)
            tmp.rename(out)
    return so


MACHINES = ('2-2', '2-3', '2-4', '3-2', '4-2', '5-2')


def build_batch() -> Path:
    """The batch machines, each behind simulated standard streams."""
    main = VERIF / 'sim' / 'batch' / 'main.c'
    srcs = [p for p in (REPO / 'machines').iterdir() if p.suffix in ('.c', '.h')]
    out = BUILD / f'batch-{digest([main, Path(__file__)] + srcs)}'
    if out.exists():
        return out
    with Lock('batch'):
        if not out.exists():
            tmp = BUILD / f'.tmp-batch-{os.getpid()}'
            tmp.mkdir(parents=True, exist_ok=True)
            for m in MACHINES:
                src = REPO / 'machines' / f'{m}.c'
                if src.exists():
                    run(['gcc', '-w', '-O2', '-fsanitize=bounds', '-fno-sanitize-recover=bounds', '-mcmodel=medium',
                         f'-DMACHINE="{src}"', str(main), '-o', str(tmp / m)], tmp)
            shutil.rmtree(out, ignore_errors=True)
            tmp.rename(out)
            prune('batch', out)
    return out


def build_batchref() -> Path:
    """The reference for the batch machines (C)."""
    return build_cref('batchref')


def build_treeref() -> Path:
    """The reference tree enumeration (C)."""
    return build_cref('treeref')


def build_simrand() -> Path:
    """Seeded getrandom(), preloaded into the workers."""
    return build_cref('simrand')


def rust_src(base: Path | None = None) -> list[Path]:
    return [p for p in (base or REPO / 'src').rglob('*.rs')]


def build_ref() -> Path:
    """The reference Turing machine (C)."""
    src = VERIF / 'sim' / 'plaintm.c'
    out = BUILD / f'ref-{digest([src])}'
    so = out / 'plaintm.so'
    if so.exists():
        return so
    with Lock('ref'):
        if not so.exists():
            tmp = BUILD / f'.tmp-ref-{os.getpid()}'
            tmp.mkdir(parents=True, exist_ok=True)
            run(['gcc', '-O2', '-shared', '-fPIC', '-o', str(tmp / 'plaintm.so'), str(src)], tmp)
            shutil.rmtree(out, ignore_errors=True)
            tmp.rename(out)
    return so


def copy_src(dst: Path, subst=None, base: Path | None = None) -> None:
    base = base or REPO / 'src'
    for p in rust_src(base):
        q = dst / p.relative_to(base)
        q.parent.mkdir(parents=True, exist_ok=True)
        text = p.read_text()
        q.write_text(subst(text) if subst else text)


def build_ext(base: Path | None = None) -> Path:
    """The repository's Rust extension against the pyo3 stand-in."""
    key = digest(rust_src(base) + shim_files('ext', 'pyo3', 'pyo3_macros', 'rayon_seq'))
    out = BUILD / f'ext-{key}'
    so = out / 'rust_stuff.so'
    if so.exists():
        return so
    with Lock('ext'):
        if so.exists():
            return so
        ws = BUILD / 'ws-ext'
        for name, to in (('ext', 'ext'), ('pyo3', 'pyo3'), ('pyo3_macros', 'pyo3_macros'),
                         ('rayon_seq', 'rayon')):
            sync(VERIF / 'rust' / name, ws / to)
        shutil.rmtree(ws / 'ext' / 'src', ignore_errors=True)
        copy_src(ws / 'ext' / 'src', base=base)
        run(['cargo', 'build', '--offline', '--release', '-q'], ws / 'ext')
        tmp = BUILD / f'.tmp-ext-{os.getpid()}'
        tmp.mkdir(parents=True, exist_ok=True)
        shutil.copy2(ws / 'ext' / 'target' / 'release' / 'librust_stuff.so', tmp / 'rust_stuff.so')
        shutil.rmtree(out, ignore_errors=True)
        tmp.rename(out)
        prune('ext', out)
    return so


def build_ext_sim() -> Path:
    """The extension with its threads and locks under the simulated runtime."""
    parts = (('ext', 'ext'), ('pyo3', 'pyo3'), ('pyo3_macros', 'pyo3_macros'), ('rayon_sim', 'rayon'),
             ('simrt', 'simrt'), ('simstd', 'simstd'))
    key = digest(rust_src() + shim_files(*(a for a, _ in parts)) + [Path(__file__)])
    out = BUILD / f'sim-{key}'
    so = out / 'rust_stuff.so'
    if so.exists():
        return so
    with Lock('sim'):
        if so.exists():
            return so
        ws = BUILD / 'ws-sim'
        for name, to in parts:
            sync(VERIF / 'rust' / name, ws / to)
        toml = ws / 'ext' / 'Cargo.toml'
        toml.write_text((VERIF / 'rust' / 'ext' / 'Cargo.toml').read_text().replace(
            '[dependencies]\n', '[dependencies]\nsimstd = { path = "../simstd" }\n'))
        shutil.rmtree(ws / 'ext' / 'src', ignore_errors=True)
        copy_src(ws / 'ext' / 'src')
        lib = ws / 'ext' / 'src' / 'lib.rs'
        lib.write_text(lib.read_text() + '\n#[allow(unused_extern_crates)]\nextern crate simstd as std;\n')
        run(['cargo', 'build', '--offline', '--release', '-q'], ws / 'ext')
        tmp = BUILD / f'.tmp-sim-{os.getpid()}'
        tmp.mkdir(parents=True, exist_ok=True)
        shutil.copy2(ws / 'ext' / 'target' / 'release' / 'librust_stuff.so', tmp / 'rust_stuff.so')
        shutil.rmtree(out, ignore_errors=True)
        tmp.rename(out)
        prune('sim', out)
    return so


def build_snapshot() -> Path:
    """The extension as first seen: host for the Python engine only, used when
    the working tree's Rust does not compile."""
    return build_ext(VERIF / 'rust' / 'snapshot')


def sync(src: Path, dst: Path) -> None:
    """Copy files whose content changed (keeps mtimes for cargo)."""
    for p in src.rglob('*'):
        if not p.is_file() or 'target' in p.relative_to(src).parts:
            continue
        q = dst / p.relative_to(src)
        data = p.read_bytes()
        if q.exists() and q.read_bytes() == data:
            continue
        q.parent.mkdir(parents=True, exist_ok=True)
        q.write_bytes(data)


if __name__ == '__main__':
    for f in sys.argv[1:] or ['build_ref', 'build_ext']:
        print(globals()[f]())
