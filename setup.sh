#!/bin/bash
# nothing is prebuilt: parse the specifications, so that a damaged toolchain is noticed here
cd "$(dirname "$0")/spec" || exit 1
for m in *.tla; do
  tla-sany "$m" > /tmp/vf_sany.$$ 2>&1 || { cat /tmp/vf_sany.$$; exit 1; }
  if grep -q "^\*\*\* Errors" /tmp/vf_sany.$$; then cat /tmp/vf_sany.$$; exit 1; fi
done
rm -f /tmp/vf_sany.$$
echo ok
