set -e
cd /tmp/mut; rm -rf /tmp/mut/base; mkdir -p base/obj
cp -a /repo/. base/repo
cd base
F='-DBOOST_NO_CXX11_SCOPED_ENUMS -D_FILE_OFFSET_BITS=64 -D__STDC_FORMAT_MACROS -DLIBSUB_POSIX -DLIBSUB_VERSION="devel" -w'
cd obj
for f in $(ls /repo/src/*.cc | grep -v version.cc); do echo "g++ -O2 -fPIC -std=c++11 -I/repo/src $F -c $f -o $(basename $f).o"; done | sed 's/"devel"/\\"devel\\"/' | xargs -P8 -I{} sh -c '{}'
ls | wc -l
