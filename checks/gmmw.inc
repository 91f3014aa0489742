  integer(C_INT) function CAT(gw_create_,EXTENSION)(nm, nl, m, fl, hasfl, up, addr, lb, ub) bind(C)
    integer(C_INT), value :: nl, fl, hasfl, up
    character(len=1), intent(IN) :: nm(nl)
    integer(C_INT), intent(INOUT) :: m(28), lb(4), ub(4)
    type(C_PTR), intent(INOUT) :: addr
    character(len=nl) :: s
    type(gmm_metadata) :: t
    DATATYPE, pointer :: p(DIMS)
    integer :: i
    do i = 1, nl
      s(i:i) = nm(i)
    end do
    t = transfer(m, t)
    nullify(p)
    if (up /= 0) allocate(p(UDIMS))
    if (up /= 0) addr = c_loc(p)
    if (hasfl /= 0) then
      CAT(gw_create_,EXTENSION) = gmm_create(s, p, t, fl)
    else
      CAT(gw_create_,EXTENSION) = gmm_create(s, p, t)
    end if
    m = transfer(t, m)
    if (associated(p)) then
      addr = c_loc(p)
      lb(1:RANK) = lbound(p)
      ub(1:RANK) = ubound(p)
    else
      addr = C_NULL_PTR
    end if
  end function
  integer(C_INT) function CAT(gw_get_,EXTENSION)(nm, nl, m, hasm, addr, lb, ub) bind(C)
    integer(C_INT), value :: nl, hasm
    character(len=1), intent(IN) :: nm(nl)
    integer(C_INT), intent(INOUT) :: m(28), lb(4), ub(4)
    type(C_PTR), intent(INOUT) :: addr
    character(len=nl) :: s
    type(gmm_metadata) :: t
    DATATYPE, pointer :: p(DIMS)
    integer :: i
    do i = 1, nl
      s(i:i) = nm(i)
    end do
    nullify(p)
    if (hasm /= 0) then
      t = transfer(m, t)
      CAT(gw_get_,EXTENSION) = gmm_get(s, p, t)
      m = transfer(t, m)
    else
      CAT(gw_get_,EXTENSION) = gmm_get(s, p)
    end if
    if (associated(p)) then
      addr = c_loc(p)
      lb(1:RANK) = lbound(p)
      ub(1:RANK) = ubound(p)
    else
      addr = C_NULL_PTR
    end if
  end function
#undef EXTENSION
