"""Write the `fixed:` lines of known_findings.txt from the fix commits in /repo (run by hand when a fix is committed)."""
import os
import re
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY_FILE = {'zt_cfg/cfg_ini.c': 'F26', 'zt_cfg/cfg_private.c': 'F26', 'zt_opts.c': 'F25', 'zt_ipv4_tbl.c': 'F24', 'zt_mem.c': 'F22', 'zt_format.c': 'F27', 'zt_threads.c': 'C01', 'zt_uuid.c': 'F20',
           'zt_sha1.c': 'F19', 'zt_gc.c': 'F17', 'zt_time.c': 'F15', 'zt_ptr_array.c': 'F05', 'zt_array.c': 'F05', 'zt_set.c': 'F09', 'zt_log/log_private.c': 'M09', 'zt_log.c': 'F21', 'zt_log/log_file.c': 'M01',
           'zt_cstr.c': 'F03', 'zt_path.c': 'F28', 'zt_progname.c': 'F28', 'zt_int.h': 'F30', 'zt_llist.h': 'F02', 'zt_unit.c': 'F29', 'zt_queue.h': 'F01', 'zt_list.h': 'F01', 'zt_ez_mempool.c': 'F23', 'zt_bstream.c': 'F07', 'zt_table.c': 'F08', 'zt_base.c': 'F04', 'zt_buf.c': 'F06'}
BY_TEXT = [('overruns its buffer', 'M04'), ('basename', 'F12'), ('slice of an empty string', 'F03'), ('joining a root', 'F12'), ('rspn', 'F12'), ('strip', 'F12'), ('hexdump', 'F31'), ('split', 'F12'), ('hex', 'F11'), ('itoa', 'F11'), ('dirname', 'F12'), ('chomp', 'F12'), ('argument list', 'M10'), ('leaks', 'M01'), ('frees', 'M01'), ('releases what', 'M01'), ('release', 'M01')]
FIRST = [('assertions kept', 'A01'), ('fails an assertion', 'A01'), ('C++ programs', 'I01'), ('by itself', 'I01'), ('declare', 'I01'), ('usleep', 'F15'), ('equality assertions', 'F29'), ('macro arguments', 'F33')]
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=@%h %s', '--name-only', 'b144f6e..'], capture_output=True, text=True).stdout
rows, cur = [], None
for l in out.splitlines():
    if l.startswith('@'):
        cur = l[1:]
    elif l.strip():
        f = l.replace('src/libzt/', '')
        h, msg = cur.split(' ', 1)
        if not msg.startswith('fix: '):
            continue
        first = next((q for k, q in FIRST if k in msg), None)
        if rows and ' %s ' % h in rows[-1]:
            continue
        p = first or BY_FILE[f]
        if not first and f == 'zt_cstr.c' or 'argument list' in msg or 'overruns its buffer' in msg:
            p = next((q for k, q in BY_TEXT if k in msg), p)
        rows.append('fixed: property=%s %s %s' % (p, h, msg[5:]))
p = os.path.join(HERE, 'known_findings.txt')
keep = [l for l in open(p).read().splitlines() if l.strip() and not re.match('fixed: ', l)] if os.path.exists(p) else []
open(p, 'w').write('\n'.join(keep + rows) + '\n')
