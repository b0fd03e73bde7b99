. "$here/run/gen.lib"
gen_check C20 c20 "$@"
