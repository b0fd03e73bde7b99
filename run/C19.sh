. "$here/run/gen.lib"
if [ "${VERIF_TIER:-quick}" = thorough ]; then gen_check C19 c19t "$@"; else gen_check C19 c19 "$@"; fi
