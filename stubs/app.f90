! Stand-in for the App submodule's Fortran module, which is absent from the tree: names only, enough to type-check.
module app
  implicit none
  integer, parameter :: APP_MAIN=0, APP_LIBRMN=1, APP_LIBFST=2, APP_LIBWB=3, APP_LIBGMM=4, APP_LIBVGRID=5, APP_LIBINTERPV=6
  integer, parameter :: APP_VERBATIM=-1, APP_ALWAYS=0, APP_FATAL=1, APP_SYSTEM=2, APP_ERROR=3, APP_WARNING=4, APP_INFO=5, APP_TRIVIAL=6, APP_DEBUG=7, APP_EXTRA=8, APP_QUIET=9
  integer, parameter :: APP_STATUS=10
  character(len=4096) :: app_msg
  interface
     subroutine lib_log(lib, level, msg)
       integer, intent(in) :: lib, level
       character(len=*), intent(in) :: msg
     end subroutine lib_log
     integer function lib_loglevel(lib, val)
       integer, intent(in) :: lib
       character(len=*), intent(in) :: val
     end function lib_loglevel
     integer function lib_loglevelno(lib, val)
       integer, intent(in) :: lib, val
     end function lib_loglevelno
     subroutine app_log(level, msg)
       integer, intent(in) :: level
       character(len=*), intent(in) :: msg
     end subroutine app_log
     integer function app_end(val)
       integer, intent(in) :: val
     end function app_end
  end interface
end module app
