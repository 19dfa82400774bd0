"""How each explorer is built from /repo's working tree."""
import os, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POGO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
MC = os.path.join(V, 'mc')
BASE = ['-g', '-O1', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-I' + SRC, '-I' + MC, '-DNOOPENSSL', '-DNOJEMALLOC', '-DNOMIMALLOC', '-DNOURING', '-pthread']
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in (
    'memcmp bcmp pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy '
    'pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_broadcast pthread_cond_signal '
    'pthread_create pthread_join pthread_detach pthread_self sched_yield usleep nanosleep').split())]

import re
MEMFS = re.search(r'MEMFS_WRAPS "(.*)"', open(MC + '/memfs.h').read()).group(1).split()

def repo_src(exclude=()):
    return [f for f in sorted(glob.glob(SRC + '/*.c')) if os.path.basename(f) not in exclude]

# name -> list of (source, extra flags), link flags
def spec(name):
    if name == 'eng':
        fl = ASAN
        return ([(SRC + '/pogocache.c', fl + ['-Dclock_gettime=mc_clock_gettime']), (MC + '/eng.c', fl), (MC + '/mc.c', fl)], fl + ['-lm'])
    if name == 'conc':
        ts = ['-fsanitize=thread', '-femulated-tls', '-fno-builtin-memcmp', '-fno-builtin-bcmp', '-Dclock_gettime=mc_clock_gettime', 'CC=clang']
        return ([(SRC + '/pogocache.c', ts), (MC + '/conc.c', ['-O2']), (MC + '/msched.c', ['-O2']), (MC + '/mc.c', [])], WRAP + ['-lm'])
    if name == 'proto':
        # the whole server without its network layer
        rn = ['-Dclock_gettime=mc_clock_gettime', '-Dexit=mc_exit', '-D_Exit=mc_exit', '-D_exit=mc_exit', '-Dsleep=mc_sleep', '-Dusleep=mc_usleep',
              '-Dpthread_create=mc_pthread_create', '-Dpthread_join=mc_pthread_join', '-Dpthread_detach=mc_pthread_detach']
        src = [(f, ASAN + rn + (['-Dmain=pogocache_main'] if os.path.basename(f) == 'main.c' else [])) for f in repo_src(('net.c',))]
        mine = [(MC + '/' + f, ASAN) for f in ('srv.cc', 'proto.cc', 'p_mc.cc', 'p_resp.cc', 'p_scan.cc', 'p_lowmem.cc', 'p_cross.cc', 'p_http.cc', 'p_split.cc', 'p_pg.cc', 'p_fn.cc', 'p_auth.cc', 'p_fuzz.cc', 'p_monitor.cc', 'p_stats.cc', 'p_save.cc', 'memfs.cc')]
        # a second copy of save.c that splits shards into many blocks
        src.append((SRC + '/save.c', ASAN + rn + ['-DMAXBLOCKSIZE=64', '-Dsave=small_save', '-Dload=small_load', '-Dcleanwork=small_cleanwork', 'OBJ=save_small', 'KEEP=small_save,small_load,small_cleanwork']))
        return (src + mine + [(MC + '/mc.c', ASAN)], ASAN + ['-Wl,--wrap=pogocache_new,--wrap=sys_nprocs,' + ','.join('--wrap=' + f for f in MEMFS), '-lm', 'LD=g++'])
    if name == 'sconc':
        # the whole server without its network layer, under the controlled scheduler
        rn = ['-Dclock_gettime=mc_clock_gettime', '-Dexit=mc_exit', '-D_Exit=mc_exit', '-D_exit=mc_exit', '-Dsleep=mc_sleep', '-Dusleep=mc_usleep', '-Dmalloc=sx_malloc', '-Dfree=sx_free',
              '-Drealloc=sx_realloc', '-Dcalloc=sx_calloc', '-Dstrdup=sx_strdup', '-Dstrndup=sx_strndup', '-Dmemcmp=sx_memcmp', '-Dbcmp=sx_memcmp', '-DMAXBLOCKSIZE=48', '-fno-pie', 'CC=clang', 'SECT=srv']
        ts = ['-fsanitize=thread', '-femulated-tls', '-fno-builtin-memcmp', '-fno-builtin-bcmp']
        src = [(f, rn + ([] if os.path.basename(f) == 'lz4.c' else ts) + (['-Dmain=pogocache_main'] if os.path.basename(f) == 'main.c' else [])) for f in repo_src(('net.c',))]
        mine = [(MC + '/' + f, ['-O2', '-fno-pie']) for f in ('sconc.cc', 'memfs.cc', 'msched.c', 'mc.c')]
        wr = WRAP[0].replace('--wrap=memcmp,--wrap=bcmp,', '')
        return (src + mine, [wr + ',--wrap=pogocache_new,--wrap=sys_nprocs,' + ','.join('--wrap=' + f for f in MEMFS), '-no-pie', '-lm', 'LD=g++'])
    if name == 'snet':
        # the whole server with its network layer, under the controlled scheduler
        rn = ['-Dclock_gettime=mc_clock_gettime', '-Dexit=mc_exit', '-D_Exit=mc_exit', '-D_exit=mc_exit', '-Dsleep=mc_sleep', '-Dusleep=mc_usleep', '-Dmalloc=sx_malloc', '-Dfree=sx_free',
              '-Drealloc=sx_realloc', '-Dcalloc=sx_calloc', '-Dstrdup=sx_strdup', '-Dstrndup=sx_strndup', '-Dmemcmp=sx_memcmp', '-Dbcmp=sx_memcmp', '-fno-pie', 'CC=clang', 'SECT=srv']
        ts = ['-fsanitize=thread', '-femulated-tls', '-fno-builtin-memcmp', '-fno-builtin-bcmp']
        src = [(f, rn + ([] if os.path.basename(f) == 'lz4.c' else ts) + (['-Dmain=pogocache_main', '-Dnet_main=capture_net_main'] if os.path.basename(f) == 'main.c' else [])) for f in repo_src()]
        mine = [(MC + '/' + f, ['-O2', '-fno-pie', '-DSC_MAXT=12']) for f in ('snet.cc', 'memfs.cc', 'msched.c', 'mc.c')]
        wr = WRAP[0].replace('--wrap=memcmp,--wrap=bcmp,', '')
        net = 'socket bind listen getaddrinfo freeaddrinfo setsockopt fcntl fcntl64 accept accept4 epoll_create1 epoll_create epoll_ctl epoll_wait epoll_pwait getpeername send recv shutdown ioctl'.split()
        return (src + mine, [wr + ',--wrap=pogocache_new,--wrap=sys_nprocs,--wrap=sys_getmeminfo,' + ','.join('--wrap=' + f for f in MEMFS + net), '-no-pie', '-lm', 'LD=g++'])
    raise KeyError(name)

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, ' '.join(cmd) + '\n' + p.stdout.decode('utf-8', 'replace')

def build_all(names, bdir, jobs):
    gi = os.path.join(bdir, 'gen'); os.makedirs(gi, exist_ok=True)
    # src/gitinfo.h is generated by the build and ignored by git: a stand-in, used when it is absent
    with open(os.path.join(gi, 'gitinfo.h'), 'w') as f: f.write('char GITHASH[] = "0000000";\nchar GITVERS[] = "0.0.0";\n')
    todo, post, links = [], [], []
    for n in names:
        srcs, ld = spec(n)
        objs = []
        for s, fl in srcs:
            obj = [x[4:] for x in fl if x.startswith('OBJ=')]; fl = [x for x in fl if not x.startswith('OBJ=')]
            o = os.path.join(bdir, '%s-%s.o' % (n, obj[0] if obj else os.path.basename(s).rsplit('.', 1)[0]))
            keep = [x[5:] for x in fl if x.startswith('KEEP=')]; fl = [x for x in fl if not x.startswith('KEEP=')]
            if keep: post.append(['objcopy'] + ['--keep-global-symbol=' + k for k in keep[0].split(',')] + [o])
            sect = [x[5:] for x in fl if x.startswith('SECT=')]; fl = [x for x in fl if not x.startswith('SECT=')]
            if sect: post.append(['objcopy', '--rename-section', '.data=%sdata,alloc,load,data,contents' % sect[0], '--rename-section', '.bss=%sbss,alloc,load,data,contents' % sect[0], o])
            cc = 'g++' if s.endswith('.cc') else 'gcc'
            if 'CC=clang' in fl: cc, fl = 'clang', [x for x in fl if x != 'CC=clang']
            todo.append([cc] + BASE + ['-I' + gi] + fl + ['-c', s, '-o', o]); objs.append(o)
        lk = 'g++' if 'LD=g++' in ld else 'gcc'; ld = [x for x in ld if x != 'LD=g++']
        links.append([lk, '-o', os.path.join(bdir, n)] + objs + ['-pthread'] + ld)
    with ThreadPoolExecutor(jobs) as ex:
        for rc, out in ex.map(sh, todo):
            if rc: return out
        for rc, out in ex.map(sh, post):
            if rc: return out
        for rc, out in ex.map(sh, links):
            if rc: return out
    return None
