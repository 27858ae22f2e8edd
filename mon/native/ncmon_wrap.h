/* the other functions netCDF4-python calls */
WRAP(nc_close_memio)
WRAP(nc_create_mem)
WRAP(nc_def_compound)
WRAPF(nc_def_dim)
WRAP(nc_def_enum)
WRAP(nc_def_grp)
WRAPF(nc_def_var)
WRAP(nc_def_var_blosc)
WRAP(nc_def_var_bzip2)
WRAPF(nc_def_var_chunking)
WRAP(nc_def_var_deflate)
WRAP(nc_def_var_endian)
WRAPF(nc_def_var_fill)
WRAP(nc_def_var_fletcher32)
WRAP(nc_def_var_quantize)
WRAP(nc_def_var_szip)
WRAP(nc_def_var_zstandard)
WRAP(nc_def_vlen)
WRAP(nc_del_att)
WRAPF(nc_enddef)
WRAP(nc_free_vlens)
WRAP(nc_get_alignment)
WRAPF(nc_get_att)
WRAP(nc_get_att_string)
WRAPF(nc_get_att_text)
WRAP(nc_get_chunk_cache)
WRAP(nc_get_var_chunk_cache)
WRAPF(nc_get_vara)
WRAPF(nc_get_vars)
WRAP(nc_inq)
WRAP(nc_inq_att)
WRAP(nc_inq_attname)
WRAP(nc_inq_compound)
WRAP(nc_inq_compound_field)
WRAP(nc_inq_compound_name)
WRAP(nc_inq_compound_nfields)
WRAP(nc_inq_dimids)
WRAP(nc_inq_dimlen)
WRAP(nc_inq_dimname)
WRAP(nc_inq_enum)
WRAP(nc_inq_enum_member)
WRAP(nc_inq_format)
WRAP(nc_inq_format_extended)
WRAP(nc_inq_grpname)
WRAP(nc_inq_grps)
WRAP(nc_inq_natts)
WRAP(nc_inq_ndims)
WRAP(nc_inq_nvars)
WRAP(nc_inq_path)
WRAP(nc_inq_type)
WRAP(nc_inq_typeid)
WRAP(nc_inq_typeids)
WRAP(nc_inq_unlimdims)
WRAP(nc_inq_user_type)
WRAP(nc_inq_var)
WRAP(nc_inq_var_blosc)
WRAP(nc_inq_var_bzip2)
WRAP(nc_inq_var_chunking)
WRAP(nc_inq_var_deflate)
WRAP(nc_inq_var_endian)
WRAP(nc_inq_var_fill)
WRAP(nc_inq_var_fletcher32)
WRAP(nc_inq_var_quantize)
WRAP(nc_inq_var_szip)
WRAP(nc_inq_var_zstandard)
WRAP(nc_inq_vardimid)
WRAP(nc_inq_varids)
WRAP(nc_inq_varname)
WRAP(nc_inq_varnatts)
WRAP(nc_inq_varndims)
WRAP(nc_inq_vartype)
WRAP(nc_inq_vlen)
WRAP(nc_insert_array_compound)
WRAP(nc_insert_compound)
WRAP(nc_insert_enum)
WRAP(nc_open_mem)
WRAPF(nc_put_att)
WRAPF(nc_put_att_string)
WRAPF(nc_put_att_text)
WRAPF(nc_put_vars)
WRAPF(nc_redef)
WRAP(nc_rename_att)
WRAP(nc_rename_dim)
WRAP(nc_rename_grp)
WRAP(nc_rename_var)
WRAP(nc_set_alignment)
WRAP(nc_set_default_format)
WRAP(nc_set_fill)
WRAPF(nc_sync)
