# backtraces of all threads at the end of a run: dev/hang.sh PROP IDX
K=/verif/build/target/x86_64-unknown-linux-gnu/release/ksim; cd /verif
KSIM_HANG=1 $K one $* >/tmp/hangout & sleep ${W:-8}
P=$(pgrep -f 'ksim one' | sort -n | tail -1)
gdb -p $P -batch -ex 'thread apply all bt 28' 2>/dev/null | grep -E '^(Thread|#)' | cut -c1-200 > /tmp/hang
pkill -f 'ksim one'; grep -c Thread /tmp/hang
