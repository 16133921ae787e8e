bash /verif/tools/b.sh; cd /tmp
cd /tmp; export LSSIM_VERIF=/tmp/vv; mkdir -p /tmp/vv
for p in ${P:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14}; do echo "== $p"; timeout 400 /tmp/simt/release/lssim check $p 2>&1| cut -c1-${W:-700}; done
