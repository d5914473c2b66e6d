# lists the sources under $1/src that define a main function
grep -lE '^ *int +main *\(' $(find "$1/src" -name '*.cpp')
