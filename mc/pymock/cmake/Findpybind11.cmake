# stand-in for pybind11's package
set(pybind11_FOUND TRUE)
get_filename_component(_pymock "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE)
if(NOT TARGET pybind11::module)
  add_library(pybind11::module INTERFACE IMPORTED)
  set_target_properties(pybind11::module PROPERTIES INTERFACE_INCLUDE_DIRECTORIES "${_pymock}")
endif()
function(pybind11_add_module name)
  set(srcs)
  foreach(a ${ARGN})
    if(NOT a MATCHES "^(MODULE|SHARED|EXCLUDE_FROM_ALL|NO_EXTRAS|SYSTEM|THIN_LTO|OPT_SIZE)$")
      list(APPEND srcs ${a})
    endif()
  endforeach()
  add_library(${name} MODULE ${srcs})
  set_target_properties(${name} PROPERTIES PREFIX "" SUFFIX ".so" POSITION_INDEPENDENT_CODE ON)
  target_include_directories(${name} PRIVATE "${PYMOCK_DIR}")
endfunction()
set(PYMOCK_DIR "${_pymock}")
