# Reverts each fix commit of /repo in a scratch copy and prints which checks report it.
rm -rf /tmp/rev; cp -a /repo /tmp/rev; cd /tmp/rev
git config user.email a@b; git config user.name a
for c in $(git -C /repo log --format=%h 26cd010..cff8d10); do
 git reset -q --hard cff8d10
 if git revert --no-edit $c >/dev/null 2>&1; then
  if go build ./... 2>/tmp/rev.err; then echo "$c $(git log -1 --format=%s $c | cut -c1-60): $(${AXV:-/tmp/axv} all /tmp/rev | awk '{print $1}' | sort | uniq -c | tr '\n' ' ')"; else echo "$c nobuild"; fi
 else git revert --abort >/dev/null 2>&1; echo "$c conflict $(git log -1 --format=%s $c)"; fi
done
rm -rf /tmp/rev
