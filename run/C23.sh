# Runs the bounded harness of /verif/miri under Miri, in shards.  Undefined behaviour (or a leak)
# is a violation; an operation Miri cannot interpret makes the check pass over that group.
. "$here/run/miri.lib"
python3 "$here/run/c23.py" "$here" "$@"
