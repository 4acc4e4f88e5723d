# source me: mkcfg FILE "CONSTANT lines" "other lines"
mkcfg() { printf 'SPECIFICATION MCSpec\nCONSTANTS\n%s\nVIEW View\n%s\nCHECK_DEADLOCK FALSE\n' "$2" "$3" > spec/$1; }
