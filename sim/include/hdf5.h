// Simulated parallel HDF5 (subset used by NESO-Particles).
#ifndef SIM_HDF5_H
#define SIM_HDF5_H
#include <mpi.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int64_t hid_t;
typedef int herr_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5P_FILE_ACCESS ((hid_t)101)
#define H5P_DATASET_XFER ((hid_t)102)
#define H5P_ATTRIBUTE_CREATE ((hid_t)103)
#define H5P_FILE_CREATE ((hid_t)104)
#define H5P_DATASET_CREATE ((hid_t)105)
#define H5T_NATIVE_INT ((hid_t)201)
#define H5T_NATIVE_LLONG ((hid_t)202)
#define H5T_NATIVE_DOUBLE ((hid_t)203)
#define H5T_STD_I64LE ((hid_t)204)
#define H5T_IEEE_F64LE ((hid_t)205)
#define H5T_STD_U8LE ((hid_t)206)
#define H5T_NATIVE_UCHAR ((hid_t)206)
#define H5T_NATIVE_INT64 ((hid_t)202)
#define H5T_STD_I32LE ((hid_t)201)
typedef enum { H5T_INTEGER = 0, H5T_FLOAT = 1, H5T_STRING = 3 } H5T_class_t;
typedef enum { H5S_SCALAR = 0, H5S_SIMPLE = 1 } H5S_class_t;
typedef enum { H5S_SELECT_SET = 0 } H5S_seloper_t;
typedef enum { H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE } H5FD_mpio_xfer_t;
hid_t H5Pcreate(hid_t cls);
herr_t H5Pclose(hid_t);
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info);
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t);
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t);
hid_t H5Fopen(const char *, unsigned, hid_t);
herr_t H5Fclose(hid_t);
herr_t H5Fflush(hid_t, int);
#define H5F_SCOPE_GLOBAL 1
#define H5F_SCOPE_LOCAL 0
hid_t H5Gcreate2(hid_t, const char *, hid_t, hid_t, hid_t);
hid_t H5Gopen2(hid_t, const char *, hid_t);
#define H5Gcreate H5Gcreate2
#define H5Gopen H5Gopen2
herr_t H5Gclose(hid_t);
hid_t H5Dcreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t);
#define H5Dcreate H5Dcreate2
hid_t H5Dopen2(hid_t, const char *, hid_t);
#define H5Dopen H5Dopen2
hid_t H5Dget_space(hid_t);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
herr_t H5Dclose(hid_t);
hid_t H5Screate(H5S_class_t);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *);
herr_t H5Sselect_hyperslab(hid_t, H5S_seloper_t, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *);
herr_t H5Sselect_none(hid_t);
herr_t H5Sselect_all(hid_t);
int H5Sget_simple_extent_ndims(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *);
herr_t H5Sclose(hid_t);
hid_t H5Acreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t);
#define H5Acreate H5Acreate2
herr_t H5Awrite(hid_t, hid_t, const void *);
herr_t H5Aclose(hid_t);
hid_t H5Tcreate(H5T_class_t, size_t);
herr_t H5Tclose(hid_t);
typedef int htri_t;
htri_t H5Lexists(hid_t, const char *, hid_t);
#ifdef __cplusplus
}
#endif
#endif
