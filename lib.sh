# Sourced by check.sh, setup.sh and replay.sh: how things are built.
export TARGET=$here/target
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
REPO=${LRPSIM_REPO:-/repo}
mkdir -p "$TARGET"

# Runs a build quietly; shows what it said only if it failed. One build at a time.
quietly() {
	local log
	log=$(mktemp)
	if ! "$@" >"$log" 2>&1; then
		cat "$log" >&2
		rm -f "$log"
		return 1
	fi
	rm -f "$log"
}

# Everything of /repo a build can see, by content: file times say nothing in a copied tree.
repo_hash() {
	(cd "$REPO" && find . \( -path ./.git -o -path ./target \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# The simulator, with /repo's crate compiled into it.
build_sim() {
	(
		flock 9
		now=$(repo_hash)
		if [ "$(cat "$TARGET/sim.stamp" 2>/dev/null)" != "$now" ]; then
			rm -f "$TARGET/sim.stamp"
			(cd "$here/sim" && CARGO_TARGET_DIR=$TARGET cargo clean --offline --release -p lrp -p lrpsim >/dev/null 2>&1)
		fi
		(cd "$here/sim" && CARGO_TARGET_DIR=$TARGET quietly cargo build --offline --locked --release) || exit 1
		echo "$now" >"$TARGET/sim.stamp"
	) 9>"$TARGET/lock"
}

# The programs of /repo (wop and the demo), built from a copy of its working tree so that neither
# its Cargo.lock nor its target directory is touched, and the shim they are run behind.
build_bins() {
	(
		flock 9
		mkdir -p "$TARGET/src" "$TARGET/bins"
		rsync -rlc --delete --exclude=/.git --exclude=/target --exclude=/wop/examples/lrpsim_woplib.rs --filter='P /wop/examples/' "$REPO/" "$TARGET/src/repo/" || exit 1
		export RUSTFLAGS=
		(cd "$TARGET/src/repo" && CARGO_TARGET_DIR=$TARGET/bins quietly cargo build --offline --release --workspace --bins) || exit 1
		cmp -s "$here/sim/shim/shim.c" "$TARGET/shim.c" && [ -e "$TARGET/shim.so" ] && exit 0
		gcc -O1 -shared -fPIC -o "$TARGET/shim.so" "$here/sim/shim/shim.c" || exit 1
		cp "$here/sim/shim/shim.c" "$TARGET/shim.c"
	) 9>"$TARGET/lock"
}

# A program that calls wop's library: an example of wop, in the copy, so that cargo finds it what
# wop depends on.
build_wlib() {
	(
		flock 9
		cd "$TARGET/src/repo" && mkdir -p wop/examples || exit 1
		cmp -s "$here/sim/wlib/lrpsim_woplib.rs" wop/examples/lrpsim_woplib.rs || cp "$here/sim/wlib/lrpsim_woplib.rs" wop/examples/ || exit 1
		export RUSTFLAGS=
		CARGO_TARGET_DIR=$TARGET/bins quietly cargo build --offline --release -p wop --example lrpsim_woplib
	) 9>"$TARGET/lock"
}

# What generated parsers are compiled against: /repo's library and the driver of their sessions.
build_e2e() {
	(
		flock 9
		rustc=$(rustc --print sysroot)/bin/rustc
		d=$TARGET/e2e
		mkdir -p "$d"
		now=$( (repo_hash; sha256sum "$here/sim/e2e/rt.rs"; echo "$rustc") | sha256sum)
		[ "$(cat "$d/stamp" 2>/dev/null)" = "$now" ] && exit 0
		rm -f "$d/stamp"
		echo "$rustc" >"$d/rustc"
		opts="--edition 2021 --crate-type rlib -A warnings -C opt-level=1 -C overflow-checks=on -C debug-assertions=on -C prefer-dynamic"
		quietly "$rustc" $opts --crate-name lrp -o "$d/liblrp.rlib" "$TARGET/src/repo/src/lib.rs" || exit 1
		quietly "$rustc" $opts --crate-name rt --extern lrp="$d/liblrp.rlib" -L "$d" -o "$d/librt.rlib" "$here/sim/e2e/rt.rs" || exit 1
		echo "$now" >"$d/stamp"
	) 9>"$TARGET/lock"
}

# The descendants of wop: built from what it generates from its own grammar. $1: base seed.
build_boot() {
	(
		flock 9
		b=$TARGET/boot
		mkdir -p "$b/gen" || exit 1
		now=$( (repo_hash; sha256sum "$TARGET/bins/release/wop" "$TARGET/shim.so") | sha256sum)
		if [ "$(cat "$b/stamp" 2>/dev/null)" != "$now" ]; then
			rm -f "$b/stamp"
			rsync -rlc --delete --exclude=/wop/examples "$TARGET/src/repo/" "$b/src/" || exit 1
			find "$b/gen" -mindepth 1 -delete || exit 1
			# what wop depends on is built already
			[ -d "$b/t" ] || cp -a "$TARGET/bins" "$b/t" || exit 1
			echo "$now" >"$b/stamp"
		fi
		"$TARGET/release/lrpsim" boot "$1"
	) 9>"$TARGET/lock"
}
