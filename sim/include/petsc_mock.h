// A small stand-in for the parts of PETSc's DMPlex the library uses.
#ifndef SIM_PETSC_MOCK_H
#define SIM_PETSC_MOCK_H
#include "mpi.h"
#include <stddef.h>
#include <stdint.h>
typedef int PetscErrorCode;
typedef int PetscInt;
typedef double PetscScalar;
typedef double PetscReal;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef struct _p_DM *DM;
typedef struct _p_Vec *Vec;
typedef struct _p_IS *IS;
typedef struct _p_Mat *Mat;
typedef struct _p_DMLabel *DMLabel;
typedef struct _p_PetscSF *PetscSF;
typedef struct _p_PetscSection *PetscSection;
typedef struct _p_PetscViewer *PetscViewer;
typedef struct _p_PetscObject *PetscObject;
typedef struct {
  PetscInt rank, index;
} PetscSFNode;
typedef enum { DM_POLYTOPE_POINT, DM_POLYTOPE_SEGMENT, DM_POLYTOPE_POINT_PRISM_TENSOR, DM_POLYTOPE_TRIANGLE,
               DM_POLYTOPE_QUADRILATERAL, DM_POLYTOPE_SEG_PRISM_TENSOR, DM_POLYTOPE_TETRAHEDRON,
               DM_POLYTOPE_HEXAHEDRON, DM_POLYTOPE_UNKNOWN } DMPolytopeType;
typedef enum { DMPLEX_INTERPOLATED_INVALID = -1, DMPLEX_INTERPOLATED_NONE, DMPLEX_INTERPOLATED_PARTIAL,
               DMPLEX_INTERPOLATED_MIXED, DMPLEX_INTERPOLATED_FULL } DMPlexInterpolatedFlag;
typedef enum { DM_BOUNDARY_NONE, DM_BOUNDARY_GHOSTED, DM_BOUNDARY_MIRROR, DM_BOUNDARY_PERIODIC } DMBoundaryType;
typedef enum { DM_POINTLOCATION_NONE, DM_POINTLOCATION_NEAREST, DM_POINTLOCATION_REMOVE } DMPointLocationType;
typedef enum { FILE_MODE_READ, FILE_MODE_WRITE } PetscFileMode;
#define PETSC_VERSION_MAJOR 3
#define PETSC_VERSION_MINOR 19
#define PETSC_COMM_SELF MPI_COMM_SELF
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define PETSC_DETERMINE (-1)
#define MPIU_INT MPI_INT
#define DMPLEX "plex"
#define VECSTANDARD "standard"
#define PETSCVIEWERVTK "vtk"
PetscErrorCode PetscInitializeNoArguments(void);
PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscErrorMessage(int, const char **, char **);
PetscErrorCode PetscObjectGetComm(PetscObject, MPI_Comm *);
PetscErrorCode PetscObjectSetName(PetscObject, const char *);
PetscErrorCode DMCreate(MPI_Comm, DM *);
PetscErrorCode DMDestroy(DM *);
PetscErrorCode DMSetType(DM, const char *);
PetscErrorCode DMSetUp(DM);
PetscErrorCode DMView(DM, PetscViewer);
PetscErrorCode DMGetDimension(DM, PetscInt *);
PetscErrorCode DMSetDimension(DM, PetscInt);
PetscErrorCode DMGetCoordinateDim(DM, PetscInt *);
PetscErrorCode DMSetCoordinateDim(DM, PetscInt);
PetscErrorCode DMGetCoordinateSection(DM, PetscSection *);
PetscErrorCode DMSetCoordinatesLocal(DM, Vec);
PetscErrorCode DMGetBoundingBox(DM, PetscReal[], PetscReal[]);
PetscErrorCode DMLocatePoints(DM, Vec, DMPointLocationType, PetscSF *);
PetscErrorCode DMCreateLabel(DM, const char[]);
PetscErrorCode DMHasLabel(DM, const char[], PetscBool *);
PetscErrorCode DMGetLabel(DM, const char[], DMLabel *);
PetscErrorCode DMGetNumLabels(DM, PetscInt *);
PetscErrorCode DMGetLabelName(DM, PetscInt, const char **);
PetscErrorCode DMSetLabelValue(DM, const char[], PetscInt, PetscInt);
PetscErrorCode DMLabelGetValue(DMLabel, PetscInt, PetscInt *);
PetscErrorCode DMPlexCreateBoxMesh(MPI_Comm, PetscInt, PetscBool, const PetscInt[], const PetscReal[],
                                   const PetscReal[], const DMBoundaryType[], PetscBool, DM *);
PetscErrorCode DMPlexDistribute(DM, PetscInt, PetscSF *, DM *);
PetscErrorCode DMPlexGetChart(DM, PetscInt *, PetscInt *);
PetscErrorCode DMPlexSetChart(DM, PetscInt, PetscInt);
PetscErrorCode DMPlexGetDepth(DM, PetscInt *);
PetscErrorCode DMPlexGetPointDepth(DM, PetscInt, PetscInt *);
PetscErrorCode DMPlexGetPointHeight(DM, PetscInt, PetscInt *);
PetscErrorCode DMPlexGetDepthStratum(DM, PetscInt, PetscInt *, PetscInt *);
PetscErrorCode DMPlexGetHeightStratum(DM, PetscInt, PetscInt *, PetscInt *);
PetscErrorCode DMPlexGetConeSize(DM, PetscInt, PetscInt *);
PetscErrorCode DMPlexSetConeSize(DM, PetscInt, PetscInt);
PetscErrorCode DMPlexGetCone(DM, PetscInt, const PetscInt **);
PetscErrorCode DMPlexSetCone(DM, PetscInt, const PetscInt[]);
PetscErrorCode DMPlexSetConeOrientation(DM, PetscInt, const PetscInt[]);
PetscErrorCode DMPlexGetOrientedCone(DM, PetscInt, const PetscInt **, const PetscInt **);
PetscErrorCode DMPlexRestoreOrientedCone(DM, PetscInt, const PetscInt **, const PetscInt **);
PetscErrorCode DMPlexGetSupportSize(DM, PetscInt, PetscInt *);
PetscErrorCode DMPlexGetSupport(DM, PetscInt, const PetscInt **);
PetscErrorCode DMPlexSymmetrize(DM);
PetscErrorCode DMPlexStratify(DM);
PetscErrorCode DMPlexGetCellType(DM, PetscInt, DMPolytopeType *);
PetscErrorCode DMPlexIsInterpolated(DM, DMPlexInterpolatedFlag *);
PetscErrorCode DMPlexCheckFaces(DM, PetscInt);
PetscErrorCode DMPlexCreatePointNumbering(DM, IS *);
PetscErrorCode DMPlexGetVertexNumbering(DM, IS *);
PetscErrorCode DMPlexGetCellCoordinates(DM, PetscInt, PetscBool *, PetscInt *, const PetscScalar *[], PetscScalar *[]);
PetscErrorCode DMPlexRestoreCellCoordinates(DM, PetscInt, PetscBool *, PetscInt *, const PetscScalar *[], PetscScalar *[]);
PetscErrorCode DMPlexComputeCellGeometryFVM(DM, PetscInt, PetscReal *, PetscReal[], PetscReal[]);
PetscErrorCode DMPlexMarkBoundaryFaces(DM, PetscInt, DMLabel);
PetscErrorCode DMPlexLabelComplete(DM, DMLabel);
PetscErrorCode PetscSFGetGraph(PetscSF, PetscInt *, PetscInt *, const PetscInt **, const PetscSFNode **);
PetscErrorCode PetscSFDestroy(PetscSF *);
PetscErrorCode PetscSectionSetNumFields(PetscSection, PetscInt);
PetscErrorCode PetscSectionSetFieldComponents(PetscSection, PetscInt, PetscInt);
PetscErrorCode PetscSectionSetChart(PetscSection, PetscInt, PetscInt);
PetscErrorCode PetscSectionSetDof(PetscSection, PetscInt, PetscInt);
PetscErrorCode PetscSectionSetFieldDof(PetscSection, PetscInt, PetscInt, PetscInt);
PetscErrorCode PetscSectionSetUp(PetscSection);
PetscErrorCode PetscSectionGetStorageSize(PetscSection, PetscInt *);
PetscErrorCode ISGetIndices(IS, const PetscInt **);
PetscErrorCode ISRestoreIndices(IS, const PetscInt **);
PetscErrorCode ISDestroy(IS *);
PetscErrorCode VecCreate(MPI_Comm, Vec *);
PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt);
PetscErrorCode VecSetBlockSize(Vec, PetscInt);
PetscErrorCode VecSetType(Vec, const char *);
PetscErrorCode VecSetFromOptions(Vec);
PetscErrorCode VecGetArray(Vec, PetscScalar **);
PetscErrorCode VecRestoreArray(Vec, PetscScalar **);
PetscErrorCode VecGetArrayWrite(Vec, PetscScalar **);
PetscErrorCode VecRestoreArrayWrite(Vec, PetscScalar **);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecDestroy(Vec *);
PetscErrorCode MatCreateSeqDense(MPI_Comm, PetscInt, PetscInt, PetscScalar[], Mat *);
PetscErrorCode MatLUFactor(Mat, IS, IS, const void *);
PetscErrorCode MatMatSolve(Mat, Mat, Mat);
PetscErrorCode MatGetValue(Mat, PetscInt, PetscInt, PetscScalar *);
PetscErrorCode MatDestroy(Mat *);
PetscErrorCode PetscViewerCreate(MPI_Comm, PetscViewer *);
PetscErrorCode PetscViewerSetType(PetscViewer, const char *);
PetscErrorCode PetscViewerFileSetMode(PetscViewer, PetscFileMode);
PetscErrorCode PetscViewerFileSetName(PetscViewer, const char[]);
PetscErrorCode PetscViewerDestroy(PetscViewer *);

#include <array>
#include <map>
#include <string>
#include <vector>
namespace simpetsc {
// A whole mesh: 2D polygons (vertices in cyclic order), 3D boxes/tetrahedra.
struct Mesh {
  int dim = 2;
  std::vector<std::vector<int>> cells;
  std::vector<std::array<double, 3>> x;
};
// How DMPlexDistribute places cells (owner per cell) and who owns shared points.
struct Partition {
  std::vector<int> owner;
  uint64_t salt = 0;
};
void reset();
void set_partition(const Partition &);
DM create(MPI_Comm, const Mesh &);        // as PETSc does it: rank 0 holds everything
int global_point(DM, PetscInt);           // local point -> point of the undistributed mesh
int cell_of_global(DM, int);              // undistributed cell -> local point, or -1
long live(const char *kind);              // objects created and not destroyed
} // namespace simpetsc
#endif
