K=/verif/build/target/x86_64-unknown-linux-gnu/release/ksim; cd /verif
KSIM_STDERR=1 KSIM_BT=1 $K one $* 2>/tmp/bt >/tmp/btout; tail -1 /tmp/btout | cut -c1-600
addr2line -fCe $K $(sed -n 's/.*ksim(+\(0x[0-9a-f]*\)).*/\1/p;s/.*ksim(\(_R\|__\)[^)]*)\[0x5555\([0-9a-f]*\)\].*/ /p' /tmp/bt) | cut -c1-160 | grep -v '^/rustc'
