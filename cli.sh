# Builds the command from /repo's working tree, outside of /repo.
build env CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --manifest-path /repo/Cargo.toml -p hcl2json --target-dir /verif/target/cli
export HCL2JSON=/verif/target/cli/debug/hcl2json
