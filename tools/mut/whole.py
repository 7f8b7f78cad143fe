import glob, os
# whole-file rewrites that keep the behaviour: whole/NAME@dir@file.go.txt replaces dir/file.go
M = []
_d = {}
for f in sorted(glob.glob("/verif/tools/mut/whole/*.txt")):
    n, d, b = os.path.basename(f)[:-4].split("@")
    _d.setdefault(n, []).append((d + "/" + b, None, open(f).read()))
for n, e in sorted(_d.items()):
    M.append((n, "", e))
