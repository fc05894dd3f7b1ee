driver(d_group sm_src sm_out sm_geom sm_pm sm_math sm_fs)
driver(d_coord sm_geom sm_pm sm_math sm_fs)
driver(d_grid sm_geom sm_pm sm_math sm_fs)
driver(d_enlarge sm_geom sm_pm sm_math sm_fs)
driver(d_box sm_geom sm_pm sm_math sm_fs)
driver(d_vec sm_math)
driver(d_mat sm_math)
driver(d_simplex sm_math)
driver(d_func sm_math)
driver(d_elem sm_geom sm_pm sm_math sm_fs)
driver(d_egroup sm_geom sm_pm sm_math sm_fs)
driver(d_mesh sm_geom sm_pm sm_math sm_fs)
driver(d_conv sm_geom sm_pm sm_math sm_fs)
driver(d_graph sm_geom sm_pm sm_math sm_fs)
driver(d_wire sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_json sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_bad sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_stl sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_vtk sm_exp sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_gid sm_exp sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_source sm_src sm_geom sm_pm sm_math sm_fs)
driver(d_port sm_src sm_geom sm_pm sm_math sm_fs)
driver(d_object sm_arg)
driver(d_cli sm_arg)
driver(d_options sm_mesh sm_solv sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_files sm_fs)
driver(d_pm sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_data sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_req sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_det sm_mesh sm_exp sm_pars sm_util sm_data sm_solv sm_src sm_out sm_geom sm_pm sm_math sm_fs sm_arg)
driver(d_progress sm_util)
