# Builds of the harness; sourced with /verif as working directory.
mkdir -p target evidence
built() { # built LOG: report a failed build
  tail -40 "$1"; echo "the harness does not build"; return 1
}
build_native() {
  (cd harness && cargo build --offline --target-dir ../target) >target/build.log 2>&1 || built target/build.log
}
# the random_leader feature of overlord elects by weight: C17 judges that build too
build_weighted() {
  (cd harness && cargo build --offline --target-dir ../target/weighted --features random_leader) >target/build-weighted.log 2>&1 || built target/build-weighted.log
}
# ThreadSanitizer (with a std built for it), AddressSanitizer, Miri
build_sanitized() {
  local x86=x86_64-unknown-linux-gnu a b c
  (cd san && RUSTFLAGS=-Zsanitizer=thread cargo +nightly build --offline -Zbuild-std --target $x86 --target-dir ../target/tsan) >target/build-tsan.log 2>&1 & a=$!
  (cd san && RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --target $x86 --target-dir ../target/asan) >target/build-asan.log 2>&1 & b=$!
  (cd san && MIRIFLAGS="-Zmiri-ignore-leaks" cargo +nightly miri run --offline --target-dir ../target/miri -- 3 1 0) >target/build-miri.log 2>&1 & c=$!
  wait $a || { built target/build-tsan.log; return 1; }
  wait $b || { built target/build-asan.log; return 1; }
  # Miri runs the program as well: what it reports there is the check's business
  wait $c || grep -q "Undefined Behavior\|deadlocked" target/build-miri.log || { built target/build-miri.log; return 1; }
}
