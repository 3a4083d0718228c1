"""The arguments with which cargo miri runs the node program, one per line."""
import json
import sys
a = json.load(open(sys.argv[1]))['args']
out, i = [], 0
while i < len(a):
    x = a[i]
    if x in ('--out-dir', '--sysroot') or x == '-C' and a[i + 1].startswith(('incremental', 'metadata', 'embed', 'debuginfo')):
        i += 2
    elif x.startswith(('--error-format', '--json', '--emit', '--sysroot')):
        i += 1
    else:
        out.append(x)
        i += 1
print('\n'.join([sys.argv[2], '/verif/dst/emu'] + out + ['--sysroot', sys.argv[3]]))
