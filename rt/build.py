"""build.py REPO DIR harness...: compile the repository's sources and the replay harnesses into DIR (nothing is written elsewhere)."""
import os, sys, subprocess
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
CXX = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
LIBS = ['-lyaml-cpp', '-lzmq', '-lcurl', '-lboost_system', '-lboost_filesystem', '-lpthread']

def main():
    repo, out, hs = os.path.abspath(sys.argv[1]), sys.argv[2], sys.argv[3:]
    src = os.path.join(repo, 'src')
    F = ['-std=c++17', '-O0', '-g1', '-DFMT_HEADER_ONLY', '-fsanitize=address', '-I' + src, '-I' + repo + '/vendor/cppzmq', '-I' + repo + '/vendor/spdlog/include', '-w']
    jobs = []
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith('.cpp') and f not in ('main.cpp', 'broker_core.cpp'):
                p = os.path.join(d, f)
                jobs.append((p, os.path.join(out, os.path.relpath(p, src).replace('/', '_')[:-4] + '.o')))
    lib = [o for _, o in jobs]
    for h in hs:
        jobs.append((os.path.join(HERE, h + '.cpp'), os.path.join(out, 'H_' + h + '.o')))
    def cc(j):
        p = subprocess.run([CXX] + F + ['-c', j[0], '-o', j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return j, p.returncode, p.stdout.decode(errors='replace')
    jobs.sort(key=lambda j: -('hist' in j[0] or 'handler' in j[0]))
    with ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        for j, rc, o in ex.map(cc, jobs):
            if rc:
                print(j[0], o[:2000])
    lib = [o for o in lib if os.path.exists(o)]
    for h in hs:
        libs = LIBS
        extra = []
        text = open(os.path.join(HERE, h + '.cpp')).read()
        if '// LINK-WITHOUT:' in text:
            drop = text.split('// LINK-WITHOUT:')[1].split('\n')[0].split()
            libs = [l for l in LIBS if l not in drop]
        p = subprocess.run([CXX, '-fsanitize=address', os.path.join(out, 'H_' + h + '.o')] + lib + ['-o', os.path.join(out, h)] + extra + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            print('link', h, p.stdout.decode(errors='replace')[:3000])
main()
