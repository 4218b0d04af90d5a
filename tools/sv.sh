#!/bin/bash
# survey summary: findings with addresses and numbers collapsed further
P=$1; shift
/verif/build/htarget/release/vharness survey $P "$@" 2>&1 | sed -E "s/(#x)[#0-9a-f]+/\1N/g; s/slot [a-z]+ '[^']*'/slot S/; s/\([#0-9a-f]{1,2}\)/(N)/g; s/step #+/step N/; s/plays [#a-f0-9]+\[[^]]*\], should play [#a-f0-9]+\[[^]]*\]/plays X, should play Y/; s/Some\(#+\)/S/g; s/song chunks .*\]  \[/song chunks [/; s/from [#0-9a-f]+ to [#0-9a-f]+/from A to B/;s/(all_overworld|build_rom|file_select) reported/CMD reported/" | awk '{n=$1; ex=$0; sub(/.*\[/,"",ex); sub(/\]$/,"",ex); sub(/,.*/,"",ex); t=$0; sub(/^ *[0-9]+ /,"",t); sub(/ *\[[0-9, ]*\]$/,"",t); c[t]+=n; e[t]=e[t]" "ex; if(split(e[t],q," ")>4){sub(/ [^ ]*$/,"",e[t])}} END{for(t in c) print c[t], t, "["e[t]"]"}' | sort -rn | cut -c1-${W:-230}
