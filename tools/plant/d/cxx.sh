# builds a small program against the libraries of the tree in the current directory
cxx() { # source output
  g++ -O1 -w -fpermissive -Iinclude -o "$2" "$1" -Llib/linux6 -Wl,--start-group -lzmdpLifeSurvey -lzmdpExec -lzmdpSearch \
    -lzmdpPomdpCore -lzmdpPomdpBounds -lzmdpPomdpParser -lzmdpBounds -lzmdpRaceTrack -lzmdpCommon -Wl,--end-group -lm
}
