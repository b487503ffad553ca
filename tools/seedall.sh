#!/bin/bash
# seedall.sh JOBS ID...: seedtest.sh for several planted bugs, JOBS at a time
j=$1; shift
printf '%s\n' "$@" | xargs -P "$j" -I{} bash /verif/tools/seedtest.sh {}
