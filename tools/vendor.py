#!/usr/bin/env python3
"""Makes a directory source that holds the crates of a lock file and those of the standard library of a toolchain
(needed where the standard library is built from its source and the registry cache lacks one of its crates).
usage: vendor.py LOCKFILE SYSROOT OUT"""
import glob, json, os, re, shutil, sys

def main(lock, sysroot, out):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    std = os.path.join(sysroot, 'lib/rustlib/src/rust/library/vendor')
    have = set()
    for d in sorted(os.listdir(std)):
        os.symlink(os.path.join(std, d), os.path.join(out, d))
        have.add(d)
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    pk = re.compile(r'\[\[package\]\]\nname = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([0-9a-f]+)"')
    for name, ver, sha in pk.findall(open(lock).read()):
        nv = f'{name}-{ver}'
        if nv in have:
            continue
        src = glob.glob(os.path.join(home, 'registry/src/*', nv))
        if not src:
            print(f'{nv}: no source here', file=sys.stderr)
            return 3
        o = os.path.join(out, nv)
        os.mkdir(o)
        for f in os.listdir(src[0]):
            if f != '.cargo-checksum.json':
                os.symlink(os.path.join(src[0], f), os.path.join(o, f))
        json.dump({'files': {}, 'package': sha}, open(os.path.join(o, '.cargo-checksum.json'), 'w'))
    return 0

sys.exit(main(*sys.argv[1:4]))
