. "$here/run/gen.lib"
if [ "${VERIF_TIER:-quick}" = thorough ]; then gen_check C13 c13t "$@"; else gen_check C13 c13 "$@"; fi
