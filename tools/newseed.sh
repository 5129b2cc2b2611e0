#!/bin/bash
# tools/newseed.sh ID PKG DIR [cargo features]: make seeded/ID/demo.sh around seeded/ID/demo.rs (a test module of crate DIR)
D=/verif/seeded/$1; mkdir -p $D
cat > $D/demo.sh <<X
#!/bin/bash
# adds demo.rs as a test module to a scratch copy of the sources and runs it
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:\$PATH
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset CARGO_TARGET_DIR RUSTFLAGS
HERE=\$(cd "\$(dirname "\$0")" && pwd)
REPO=\$(pwd)
W=\$(mktemp -d)
trap 'find "\$W" -delete' EXIT
mkdir "\$W/repo"
cp -a "\$REPO"/Cargo.toml "\$REPO"/Cargo.lock "\$REPO"/contracts "\$REPO"/packages "\$W/repo/" || exit 3
ln -s "\$REPO/target" "\$W/repo/target"
if [ -f "\$W/repo/$3/src/tests.rs" ] && [ -d "\$W/repo/$3/src/tests" ]; then
    cp "\$HERE/demo.rs" "\$W/repo/$3/src/tests/zz_demo.rs" || exit 3
    echo 'mod zz_demo;' >> "\$W/repo/$3/src/tests.rs"
else
    cp "\$HERE/demo.rs" "\$W/repo/$3/src/zz_demo.rs" || exit 3
    echo '#[cfg(test)] mod zz_demo;' >> "\$W/repo/$3/src/lib.rs"
fi
cd "\$W/repo" || exit 3
cargo test --offline --locked -p $2 $4 --lib zz_demo 2>&1 | tail -n 30
exit \${PIPESTATUS[0]}
X
chmod +x $D/demo.sh
