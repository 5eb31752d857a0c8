# the command line tools, built from /repo's working tree
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export VERIF_CLI="$V/target-cli/debug"
build /repo "$V/target-cli" build --offline -p ssbh_lib_json -p ssbh_data_json -p ssbh_test
