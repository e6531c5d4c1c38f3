# Read by CMake right after /repo's project(freud): every source of freud is built, with Eigen
# from the system and stand-ins for fsph and voro++ (whose submodules are empty here).
function(add_library _name)
  set(_args ${ARGN})
  list(FILTER _args EXCLUDE REGEX "^${PROJECT_SOURCE_DIR}/extern/voro\\+\\+/")
  _add_library(${_name} ${_args})
endfunction()
