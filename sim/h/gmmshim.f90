! The generic procedures of rmn_gmm for the C++ harness: one pair of wrappers for
! each data type and rank (generated, see the loop of types and ranks below).
module gmmshim
  use iso_c_binding
  use iso_fortran_env
  use rmn_gmm
  implicit none
contains
  subroutine name_of(c, n, s)
    character(kind=c_char), intent(in) :: c(*)
    integer(c_int), value :: n
    character(len=*), intent(out) :: s
    integer :: i
    s = ' '
    do i = 1, n
      s(i:i) = c(i)
    end do
  end subroutine

  integer function c141(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g141(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
    end if
  end function

  integer function c142(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g142(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
    end if
  end function

  integer function c143(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g143(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
    end if
  end function

  integer function c144(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:,:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3), b(1,4):b(2,4)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g144(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int32), pointer :: p(:,:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
    end if
  end function

  integer function c181(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g181(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
    end if
  end function

  integer function c182(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g182(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
    end if
  end function

  integer function c183(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g183(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
    end if
  end function

  integer function c184(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:,:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3), b(1,4):b(2,4)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g184(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    integer(int64), pointer :: p(:,:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
    end if
  end function

  integer function c241(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g241(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
    end if
  end function

  integer function c242(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g242(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
    end if
  end function

  integer function c243(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g243(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
    end if
  end function

  integer function c244(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:,:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3), b(1,4):b(2,4)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g244(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real32), pointer :: p(:,:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
    end if
  end function

  integer function c281(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g281(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
    end if
  end function

  integer function c282(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g282(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
    end if
  end function

  integer function c283(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g283(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
    end if
  end function

  integer function c284(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:,:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3), b(1,4):b(2,4)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g284(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    real(real64), pointer :: p(:,:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
    end if
  end function

  integer function c381(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g381(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:1) = lbound(p); ub(1:1) = ubound(p)
    end if
  end function

  integer function c382(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g382(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:2) = lbound(p); ub(1:2) = ubound(p)
    end if
  end function

  integer function c383(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g383(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:3) = lbound(p); ub(1:3) = ubound(p)
    end if
  end function

  integer function c384(nm, meta, flags, own, b, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    type(gmm_metadata), intent(inout) :: meta
    integer, intent(in) :: flags, own, b(2,4)
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:,:,:,:)
    nullify(p)
    if (own /= 0) allocate(p(b(1,1):b(2,1), b(1,2):b(2,2), b(1,3):b(2,3), b(1,4):b(2,4)))
    if (own /= 0) p = 0
    if (flags >= 0) then
      r = gmm_create(nm, p, meta, flags)
    else
      r = gmm_create(nm, p, meta)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
      if (own /= 0 .and. r < 0) deallocate(p)
    end if
  end function
  integer function g384(nm, wm, meta, addr, lb, ub) result(r)
    character(len=*), intent(in) :: nm
    integer, intent(in) :: wm
    type(gmm_metadata), intent(inout) :: meta
    integer(c_int64_t), intent(out) :: addr
    integer, intent(inout) :: lb(4), ub(4)
    complex(real32), pointer :: p(:,:,:,:)
    nullify(p)
    if (wm /= 0) then
      r = gmm_get(nm, p, meta)
    else
      r = gmm_get(nm, p)
    end if
    addr = 0
    if (associated(p)) then
      addr = loc(p); lb(1:4) = lbound(p); ub(1:4) = ubound(p)
    end if
  end function

  integer(c_int) function gs_create(ext, cnm, nl, m, flags, own, b, addr, lb, ub) bind(c) result(r)
    integer(c_int), value :: ext, nl, flags, own
    character(kind=c_char), intent(in) :: cnm(*)
    integer(c_int), intent(inout) :: m(GMM_META_SIZE), lb(4), ub(4)
    integer(c_int), intent(in) :: b(2,4)
    integer(c_int64_t), intent(out) :: addr
    character(len=80) :: nm
    type(gmm_metadata) :: meta
    integer :: k
    call name_of(cnm, nl, nm)
    k = gmm_decodemeta(meta, m)
    r = -99
    select case (ext)
    case (141); r = c141(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (142); r = c142(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (143); r = c143(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (144); r = c144(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (181); r = c181(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (182); r = c182(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (183); r = c183(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (184); r = c184(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (241); r = c241(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (242); r = c242(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (243); r = c243(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (244); r = c244(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (281); r = c281(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (282); r = c282(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (283); r = c283(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (284); r = c284(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (381); r = c381(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (382); r = c382(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (383); r = c383(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    case (384); r = c384(nm(1:nl), meta, flags, own, b, addr, lb, ub)
    end select
    k = gmm_encodemeta(meta, m)
  end function
  integer(c_int) function gs_get(ext, cnm, nl, wm, m, addr, lb, ub) bind(c) result(r)
    integer(c_int), value :: ext, nl, wm
    character(kind=c_char), intent(in) :: cnm(*)
    integer(c_int), intent(inout) :: m(GMM_META_SIZE), lb(4), ub(4)
    integer(c_int64_t), intent(out) :: addr
    character(len=80) :: nm
    type(gmm_metadata) :: meta
    integer :: k
    call name_of(cnm, nl, nm)
    k = gmm_decodemeta(meta, m)
    r = -99
    select case (ext)
    case (141); r = g141(nm(1:nl), wm, meta, addr, lb, ub)
    case (142); r = g142(nm(1:nl), wm, meta, addr, lb, ub)
    case (143); r = g143(nm(1:nl), wm, meta, addr, lb, ub)
    case (144); r = g144(nm(1:nl), wm, meta, addr, lb, ub)
    case (181); r = g181(nm(1:nl), wm, meta, addr, lb, ub)
    case (182); r = g182(nm(1:nl), wm, meta, addr, lb, ub)
    case (183); r = g183(nm(1:nl), wm, meta, addr, lb, ub)
    case (184); r = g184(nm(1:nl), wm, meta, addr, lb, ub)
    case (241); r = g241(nm(1:nl), wm, meta, addr, lb, ub)
    case (242); r = g242(nm(1:nl), wm, meta, addr, lb, ub)
    case (243); r = g243(nm(1:nl), wm, meta, addr, lb, ub)
    case (244); r = g244(nm(1:nl), wm, meta, addr, lb, ub)
    case (281); r = g281(nm(1:nl), wm, meta, addr, lb, ub)
    case (282); r = g282(nm(1:nl), wm, meta, addr, lb, ub)
    case (283); r = g283(nm(1:nl), wm, meta, addr, lb, ub)
    case (284); r = g284(nm(1:nl), wm, meta, addr, lb, ub)
    case (381); r = g381(nm(1:nl), wm, meta, addr, lb, ub)
    case (382); r = g382(nm(1:nl), wm, meta, addr, lb, ub)
    case (383); r = g383(nm(1:nl), wm, meta, addr, lb, ub)
    case (384); r = g384(nm(1:nl), wm, meta, addr, lb, ub)
    end select
    k = gmm_encodemeta(meta, m)
  end function
  integer(c_int) function gs_getmeta(cnm, nl, m) bind(c) result(r)
    integer(c_int), value :: nl
    character(kind=c_char), intent(in) :: cnm(*)
    integer(c_int), intent(inout) :: m(GMM_META_SIZE)
    character(len=80) :: nm
    type(gmm_metadata) :: meta
    integer :: k
    call name_of(cnm, nl, nm)
    r = gmm_getmeta(nm(1:nl), meta)
    if (r >= 0) k = gmm_encodemeta(meta, m)
  end function
  integer(c_int) function gs_updatemeta(cnm, nl, m) bind(c) result(r)
    integer(c_int), value :: nl
    character(kind=c_char), intent(in) :: cnm(*)
    integer(c_int), intent(in) :: m(GMM_META_SIZE)
    character(len=80) :: nm
    type(gmm_metadata) :: meta
    integer :: k
    call name_of(cnm, nl, nm)
    k = gmm_decodemeta(meta, m)
    r = gmm_updatemeta(nm(1:nl), meta)
  end function
  integer(c_int) function gs_delete(cnm, nl) bind(c) result(r)
    integer(c_int), value :: nl
    character(kind=c_char), intent(in) :: cnm(*)
    character(len=80) :: nm
    call name_of(cnm, nl, nm)
    r = gmm_delete(nm(1:nl))
  end function
  integer(c_int) function gs_rename(a, na, b, nb) bind(c) result(r)
    integer(c_int), value :: na, nb
    character(kind=c_char), intent(in) :: a(*), b(*)
    character(len=80) :: sa, sb
    call name_of(a, na, sa)
    call name_of(b, nb, sb)
    r = gmm_rename(sa(1:na), sb(1:nb))
  end function
  integer(c_int) function gs_shuffle(c, n) bind(c) result(r)     ! n names of 32 characters
    integer(c_int), value :: n
    character(kind=c_char), intent(in) :: c(*)
    character(len=32) :: l(n)
    integer :: i
    do i = 1, n
      call name_of(c((i-1)*32+1:i*32), 32, l(i))
    end do
    r = gmm_shuffle(l)
  end function
  integer(c_int) function gs_nkeys() bind(c) result(r)
    r = gmm_nkeys()
  end function
  integer(c_int) function gs_keys(c, n, pat, np) bind(c) result(r)
    integer(c_int), value :: n, np
    character(kind=c_char), intent(inout) :: c(*)
    character(kind=c_char), intent(in) :: pat(*)
    character(len=32) :: l(n)
    character(len=80) :: p
    integer :: i, j
    l = ' '
    if (np >= 0) then
      call name_of(pat, np, p)
      r = gmm_keys(l, p(1:np))
    else
      r = gmm_keys(l)
    end if
    do i = 1, n
      do j = 1, 32
        c((i-1)*32+j) = l(i)(j:j)
      end do
    end do
  end function
  integer(c_int) function gs_checkpoint(rd) bind(c) result(r)
    integer(c_int), value :: rd
    if (rd /= 0) then
      r = gmm_checkpoint_all(GMM_READ_CKPT)
    else
      r = gmm_checkpoint_all(GMM_WRIT_CKPT)
    end if
  end function
  subroutine gs_dump() bind(c)
    call gmm_dumpinfo()
  end subroutine
end module
