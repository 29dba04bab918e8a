// In-memory stand-in for parallel HDF5, used with simmpi (see h5fake.cc).
#pragma once
#include <mpi.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int64_t hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
typedef unsigned char hbool_t;
typedef struct { int type; unsigned long fileno[2], objno[2]; unsigned nlink; } H5G_stat_t;
typedef struct { int type; } H5L_info_t;
typedef struct { hsize_t nlinks; } H5G_info_t;
typedef herr_t (*H5E_auto2_t)(hid_t, void *);
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5E_DEFAULT ((hid_t)0)
#define H5P_FILE_ACCESS ((hid_t)101)
#define H5P_FILE_CREATE ((hid_t)102)
#define H5P_DATASET_XFER ((hid_t)103)
#define H5P_DATASET_CREATE ((hid_t)104)
#define H5P_GROUP_CREATE ((hid_t)105)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5F_SCOPE_GLOBAL 1
#define H5F_SCOPE_LOCAL 0
#define H5S_UNLIMITED (~(hsize_t)0)
typedef enum { H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE } H5FD_mpio_xfer_t;
typedef enum { H5S_SELECT_SET = 0, H5S_SELECT_OR = 1 } H5S_seloper_t;
typedef enum { H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 } H5S_class_t;
#define H5T_NATIVE_CHAR ((hid_t)200)
#define H5T_NATIVE_INT ((hid_t)201)
#define H5T_NATIVE_UINT ((hid_t)202)
#define H5T_NATIVE_LONG ((hid_t)203)
#define H5T_NATIVE_ULONG ((hid_t)204)
#define H5T_NATIVE_LLONG ((hid_t)203)
#define H5T_NATIVE_ULLONG ((hid_t)204)
#define H5T_NATIVE_FLOAT ((hid_t)205)
#define H5T_NATIVE_DOUBLE ((hid_t)206)
#define H5T_NATIVE_INT32 ((hid_t)201)
#define H5T_NATIVE_UINT32 ((hid_t)202)
#define H5T_NATIVE_INT64 ((hid_t)203)
#define H5T_NATIVE_UINT64 ((hid_t)204)

herr_t H5open(void);
herr_t H5close(void);
hid_t H5Pcreate(hid_t);
herr_t H5Pclose(hid_t);
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info);
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t);
herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t);
herr_t H5Pset_coll_metadata_write(hid_t, hbool_t);
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t);
hid_t H5Fopen(const char *, unsigned, hid_t);
herr_t H5Fclose(hid_t);
herr_t H5Fflush(hid_t, int);
htri_t H5Fis_hdf5(const char *);
hid_t H5Gcreate(hid_t, const char *, hid_t, hid_t, hid_t);
hid_t H5Gopen(hid_t, const char *, hid_t);
herr_t H5Gclose(hid_t);
herr_t H5Gget_objinfo(hid_t, const char *, hbool_t, H5G_stat_t *);
htri_t H5Lexists(hid_t, const char *, hid_t);
herr_t H5Ldelete(hid_t, const char *, hid_t);
hid_t H5Dcreate(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t);
hid_t H5Dopen(hid_t, const char *, hid_t);
herr_t H5Dclose(hid_t);
hid_t H5Dget_space(hid_t);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
hid_t H5Acreate(hid_t, const char *, hid_t, hid_t, hid_t, hid_t);
hid_t H5Aopen(hid_t, const char *, hid_t);
htri_t H5Aexists(hid_t, const char *);
herr_t H5Adelete(hid_t, const char *);
herr_t H5Aclose(hid_t);
herr_t H5Awrite(hid_t, hid_t, const void *);
herr_t H5Aread(hid_t, hid_t, void *);
hid_t H5Screate(H5S_class_t);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *);
herr_t H5Sclose(hid_t);
int H5Sget_simple_extent_ndims(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *);
hssize_t H5Sget_simple_extent_npoints(hid_t);
hssize_t H5Sget_select_npoints(hid_t);
herr_t H5Sselect_hyperslab(hid_t, H5S_seloper_t, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *);
herr_t H5Sselect_none(hid_t);
herr_t H5Sselect_all(hid_t);
herr_t H5Eset_auto(hid_t, H5E_auto2_t, void *);
#define H5Gcreate2 H5Gcreate
#define H5Gopen2 H5Gopen
#define H5Dcreate2 H5Dcreate
#define H5Dopen2 H5Dopen
#define H5Acreate2 H5Acreate
#define H5Eset_auto2 H5Eset_auto
#ifdef __cplusplus
}
#endif
