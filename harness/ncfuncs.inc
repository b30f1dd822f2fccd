// functions of the netCDF library that return a status
F(nc__create)
F(nc__enddef)
F(nc__open)
F(nc_abort)
F(nc_close)
F(nc_copy_att)
F(nc_copy_var)
F(nc_create)
F(nc_def_dim)
F(nc_def_var)
F(nc_def_var_fill)
F(nc_del_att)
F(nc_enddef)
F(nc_get_att)
F(nc_get_att_double)
F(nc_get_att_float)
F(nc_get_att_int)
F(nc_get_att_long)
F(nc_get_att_longlong)
F(nc_get_att_schar)
F(nc_get_att_short)
F(nc_get_att_string)
F(nc_get_att_text)
F(nc_get_att_ubyte)
F(nc_get_att_uchar)
F(nc_get_att_uint)
F(nc_get_var)
F(nc_get_var1)
F(nc_get_var1_double)
F(nc_get_var1_float)
F(nc_get_var1_int)
F(nc_get_var1_long)
F(nc_get_var1_longlong)
F(nc_get_var1_schar)
F(nc_get_var1_short)
F(nc_get_var1_text)
F(nc_get_var1_ubyte)
F(nc_get_var1_uchar)
F(nc_get_var1_uint)
F(nc_get_var1_ushort)
F(nc_get_var_double)
F(nc_get_var_float)
F(nc_get_var_int)
F(nc_get_var_long)
F(nc_get_var_longlong)
F(nc_get_var_schar)
F(nc_get_var_short)
F(nc_get_var_text)
F(nc_get_var_ubyte)
F(nc_get_var_uchar)
F(nc_get_var_uint)
F(nc_get_var_ushort)
F(nc_get_vara)
F(nc_get_vara_double)
F(nc_get_vara_float)
F(nc_get_vara_int)
F(nc_get_vara_long)
F(nc_get_vara_longlong)
F(nc_get_vara_schar)
F(nc_get_vara_short)
F(nc_get_vara_text)
F(nc_get_vara_ubyte)
F(nc_get_vara_uchar)
F(nc_get_vara_uint)
F(nc_get_vara_ushort)
F(nc_get_varm)
F(nc_get_varm_double)
F(nc_get_varm_float)
F(nc_get_varm_int)
F(nc_get_varm_long)
F(nc_get_varm_longlong)
F(nc_get_varm_schar)
F(nc_get_varm_short)
F(nc_get_varm_text)
F(nc_get_varm_ubyte)
F(nc_get_varm_uchar)
F(nc_get_varm_uint)
F(nc_get_varm_ushort)
F(nc_get_vars)
F(nc_get_vars_double)
F(nc_get_vars_float)
F(nc_get_vars_int)
F(nc_get_vars_long)
F(nc_get_vars_longlong)
F(nc_get_vars_schar)
F(nc_get_vars_short)
F(nc_get_vars_text)
F(nc_get_vars_ubyte)
F(nc_get_vars_uchar)
F(nc_get_vars_uint)
F(nc_get_vars_ushort)
F(nc_inq)
F(nc_inq_att)
F(nc_inq_attid)
F(nc_inq_attlen)
F(nc_inq_attname)
F(nc_inq_atttype)
F(nc_inq_dim)
F(nc_inq_dimid)
F(nc_inq_dimids)
F(nc_inq_dimlen)
F(nc_inq_dimname)
F(nc_inq_format)
F(nc_inq_format_extended)
F(nc_inq_natts)
F(nc_inq_ndims)
F(nc_inq_nvars)
F(nc_inq_path)
F(nc_inq_type)
F(nc_inq_unlimdim)
F(nc_inq_unlimdims)
F(nc_inq_var)
F(nc_inq_var_fill)
F(nc_inq_vardimid)
F(nc_inq_varid)
F(nc_inq_varids)
F(nc_inq_varname)
F(nc_inq_varnatts)
F(nc_inq_varndims)
F(nc_inq_vartype)
F(nc_open)
F(nc_put_att)
F(nc_put_att_double)
F(nc_put_att_float)
F(nc_put_att_int)
F(nc_put_att_long)
F(nc_put_att_longlong)
F(nc_put_att_schar)
F(nc_put_att_short)
F(nc_put_att_string)
F(nc_put_att_text)
F(nc_put_att_ubyte)
F(nc_put_att_uchar)
F(nc_put_att_uint)
F(nc_put_var)
F(nc_put_var1)
F(nc_put_var1_double)
F(nc_put_var1_float)
F(nc_put_var1_int)
F(nc_put_var1_long)
F(nc_put_var1_longlong)
F(nc_put_var1_schar)
F(nc_put_var1_short)
F(nc_put_var1_text)
F(nc_put_var1_ubyte)
F(nc_put_var1_uchar)
F(nc_put_var1_uint)
F(nc_put_var1_ushort)
F(nc_put_var_double)
F(nc_put_var_float)
F(nc_put_var_int)
F(nc_put_var_long)
F(nc_put_var_longlong)
F(nc_put_var_schar)
F(nc_put_var_short)
F(nc_put_var_text)
F(nc_put_var_ubyte)
F(nc_put_var_uchar)
F(nc_put_var_uint)
F(nc_put_var_ushort)
F(nc_put_vara)
F(nc_put_vara_double)
F(nc_put_vara_float)
F(nc_put_vara_int)
F(nc_put_vara_long)
F(nc_put_vara_longlong)
F(nc_put_vara_schar)
F(nc_put_vara_short)
F(nc_put_vara_text)
F(nc_put_vara_ubyte)
F(nc_put_vara_uchar)
F(nc_put_vara_uint)
F(nc_put_vara_ushort)
F(nc_put_varm)
F(nc_put_varm_double)
F(nc_put_varm_float)
F(nc_put_varm_int)
F(nc_put_varm_long)
F(nc_put_varm_longlong)
F(nc_put_varm_schar)
F(nc_put_varm_short)
F(nc_put_varm_text)
F(nc_put_varm_ubyte)
F(nc_put_varm_uchar)
F(nc_put_varm_uint)
F(nc_put_varm_ushort)
F(nc_put_vars)
F(nc_put_vars_double)
F(nc_put_vars_float)
F(nc_put_vars_int)
F(nc_put_vars_long)
F(nc_put_vars_longlong)
F(nc_put_vars_schar)
F(nc_put_vars_short)
F(nc_put_vars_text)
F(nc_put_vars_ubyte)
F(nc_put_vars_uchar)
F(nc_put_vars_uint)
F(nc_put_vars_ushort)
F(nc_redef)
F(nc_rename_att)
F(nc_rename_dim)
F(nc_rename_var)
F(nc_set_fill)
F(nc_sync)
