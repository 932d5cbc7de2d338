# Sourced by demo.sh, in the repository: builds the demonstration with the sources of one program and runs it under Wine.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
export WINEPREFIX=$tmp/wine WINEDEBUG=-all WINEDLLOVERRIDES="mscoree,mshtml=;winemenubuilder.exe=d"
cleanup() { wineserver -k 2>/dev/null; wineserver -w 2>/dev/null; rm -rf "$tmp"; }
trap cleanup EXIT
group=$1
src=$PWD/src
case $group in
agent) files=$(ls "$src"/agent/*.cc "$src"/shared/*.cc | grep -v -e 'agent/main.cc' -e 'WinptyAssert.cc' -e 'Test.cc'); fl=-DWINPTY_AGENT_ASSERT; files="$files $here/kit/agent_assert.cc" ;;
agentmain) files=$(ls "$src"/agent/*.cc "$src"/shared/*.cc | grep -v -e 'Test.cc' -e 'WinptyAssert.cc' -e 'agent/main.cc'); fl=-DWINPTY_AGENT_ASSERT; files="$files $here/kit/agent_assert.cc" ;;
lib) files=$(ls "$src"/libwinpty/*.cc "$src"/shared/*.cc | grep -v -e 'Test.cc'); fl=-DCOMPILING_WINPTY_DLL ;;
ux) files=$(ls "$src"/unix-adapter/*.cc "$src"/shared/*.cc | grep -v -e 'Test.cc'); fl=-DCOMPILING_WINPTY_DLL; mkdir -p "$tmp/ux/sys" "$tmp/ux/cygwin"
    for h in assert.h unistd.h termios.h sys/ioctl.h sys/select.h sys/cygwin.h cygwin/version.h; do : > "$tmp/ux/$h"; done ;;
shared) files=$(ls "$src"/shared/*.cc | grep -v -e 'Test.cc'); fl= ;;
esac
files="$files $(echo "$EXTRA" | sed "s#@#$here/#g") $here/kit/w32.cc $here/kit/demo_rt.cc $here/demo.cc"
printf 'const char GenVersion_Version[] = "x";\nconst char GenVersion_Commit[] = "none";\n' > "$tmp/GenVersion.h"
sed -n 's/^X([^,]*, \([A-Za-z0-9_]*\),.*/#define \1 wsymw_\1/p' "$here/kit/w32.h" > "$tmp/rename.h"
defs="-DUNICODE -D_UNICODE -D_WIN32_WINNT=0x0501 -DNOMINMAX"
i=0
for f in $files; do i=$((i+1)); echo "$f $tmp/$i.o"; done | xargs -P 8 -L 1 bash -c '
    case $0 in */unix-adapter/*) set -- "$1" -include "'"$here"'/kit/ux.h" -I"'"$tmp"'/ux" -Dmain=adapterMain ;; esac
    x86_64-w64-mingw32-g++-posix -std=c++11 -O1 -c -w -DWSYM_NATIVE -fno-strict-aliasing '"$defs $fl -include $tmp/rename.h -I$tmp -I$src/include -I$src -I$here/kit"' "${@:2}" "$0" -o "$1" || exit 255' || { echo "demo: does not compile"; exit 0; }
x86_64-w64-mingw32-g++-posix -static -o "$tmp/demo.exe" "$tmp"/*.o -lws2_32 -ladvapi32 -lshell32 -luser32 -lgdi32 || { echo "demo: does not link"; exit 0; }
if [ -d /opt/vp/wine/drive_c ]; then
    mkdir "$WINEPREFIX"
    cp /opt/vp/wine/*.reg "$WINEPREFIX"; cp /opt/vp/wine/.update-timestamp "$WINEPREFIX" 2>/dev/null
    cp -as /opt/vp/wine/drive_c "$WINEPREFIX"
    mkdir "$WINEPREFIX/dosdevices"; ln -s ../drive_c "$WINEPREFIX/dosdevices/c:"; ln -s / "$WINEPREFIX/dosdevices/z:"
fi
out=$(timeout 200 wine "$tmp/demo.exe" </dev/null 2>/dev/null)
rc=$?
echo "$out"
case $out in
*"demo: ok"*) exit 0 ;;
*) [ $rc -ne 0 ] && exit 1; echo "demo: no answer"; exit 0 ;;
esac
