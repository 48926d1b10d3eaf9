MAIN=/opt/bezdeps/main; HCD=/opt/bezdeps/hcd; SP=lib/python3.12/site-packages/cmeel.prefix
INC="-I/verif/mc -I/repo/include -I/verif/mc/compat/include -isystem $MAIN/$SP/include -isystem $MAIN/$SP/include/eigen3 -isystem $HCD/$SP/include -isystem $HCD/$SP/include/cddlib -isystem $HCD/$SP/include/coin"
DEF="-DNDEBUG -DUSE_GLPK_SOLVER=1 -DqpOASES_FOUND -DCLP_FOUND"
