/* Interface of the StarPU runtime used by <T>LAPACK, served by the simulator
 * (../starpu_rt.hpp).  Declarations follow StarPU 1.4. */
#ifndef SIM_STARPU_H
#define SIM_STARPU_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
#define STARPU_NMAXBUFS 8
#define STARPU_MAXIMPLEMENTATIONS 4
#define STARPU_CPU (1u << 1)
#define STARPU_CUDA (1u << 3)
#define STARPU_CUDA_ASYNC (1 << 0)
#define STARPU_MAIN_RAM 0
#define STARPU_ATTRIBUTE_UNUSED __attribute__((unused))
enum starpu_data_access_mode { STARPU_NONE = 0, STARPU_R = 1, STARPU_W = 2, STARPU_RW = 3, STARPU_SCRATCH = 4, STARPU_REDUX = 8, STARPU_COMMUTE = 16, STARPU_NOFOOTPRINT = 1 << 9 };
enum starpu_data_interface_id { STARPU_UNKNOWN_INTERFACE_ID = -1, STARPU_MATRIX_INTERFACE_ID = 0, STARPU_VARIABLE_INTERFACE_ID = 4 };
typedef struct _starpu_data_state* starpu_data_handle_t;
struct starpu_data_interface_ops { enum starpu_data_interface_id interfaceid; size_t interface_size; };
struct starpu_data_filter {
    void (*filter_func)(void* father_interface, void* child_interface, struct starpu_data_filter*, unsigned id, unsigned nparts);
    unsigned nchildren;
    unsigned (*get_nchildren)(struct starpu_data_filter*, starpu_data_handle_t);
    struct starpu_data_interface_ops* (*get_child_ops)(struct starpu_data_filter*, unsigned id);
    unsigned filter_arg;
    void* filter_arg_ptr;
};
struct starpu_matrix_interface {
    enum starpu_data_interface_id id;
    uintptr_t ptr;
    uintptr_t dev_handle;
    size_t offset;
    uint32_t nx, ny, ld;
    size_t elemsize;
    size_t allocsize;
};
struct starpu_variable_interface {
    enum starpu_data_interface_id id;
    uintptr_t ptr;
    uintptr_t dev_handle;
    size_t offset;
    size_t elemsize;
};
#define STARPU_MATRIX_GET_PTR(i) (((struct starpu_matrix_interface*)(i))->ptr)
#define STARPU_MATRIX_GET_NX(i) (((struct starpu_matrix_interface*)(i))->nx)
#define STARPU_MATRIX_GET_NY(i) (((struct starpu_matrix_interface*)(i))->ny)
#define STARPU_MATRIX_GET_LD(i) (((struct starpu_matrix_interface*)(i))->ld)
#define STARPU_MATRIX_GET_ELEMSIZE(i) (((struct starpu_matrix_interface*)(i))->elemsize)
#define STARPU_VARIABLE_GET_PTR(i) (((struct starpu_variable_interface*)(i))->ptr)
#define STARPU_VARIABLE_GET_ELEMSIZE(i) (((struct starpu_variable_interface*)(i))->elemsize)
typedef void (*starpu_cpu_func_t)(void**, void*);
typedef void (*starpu_cuda_func_t)(void**, void*);
struct starpu_codelet {
    uint32_t where;
    starpu_cpu_func_t cpu_funcs[STARPU_MAXIMPLEMENTATIONS];
    starpu_cuda_func_t cuda_funcs[STARPU_MAXIMPLEMENTATIONS];
    char cuda_flags[STARPU_MAXIMPLEMENTATIONS];
    int nbuffers;
    enum starpu_data_access_mode modes[STARPU_NMAXBUFS];
    const char* name;
    unsigned flags;
    int checked;
};
struct starpu_task {
    const char* name;
    struct starpu_codelet* cl;
    starpu_data_handle_t handles[STARPU_NMAXBUFS];
    void* cl_arg;
    size_t cl_arg_size;
    void (*callback_func)(void*);
    void* callback_arg;
    int priority;
    double flops;
};
void starpu_matrix_data_register(starpu_data_handle_t* h, int node, uintptr_t ptr, uint32_t ld, uint32_t nx, uint32_t ny, size_t elemsize);
void starpu_variable_data_register(starpu_data_handle_t* h, int node, uintptr_t ptr, size_t size);
uint32_t starpu_matrix_get_nx(starpu_data_handle_t h);
uint32_t starpu_matrix_get_ny(starpu_data_handle_t h);
void starpu_data_map_filters(starpu_data_handle_t h, unsigned n, ...);
starpu_data_handle_t starpu_data_get_child(starpu_data_handle_t h, unsigned i);
starpu_data_handle_t starpu_data_get_sub_data(starpu_data_handle_t h, unsigned depth, ...);
void starpu_data_partition_plan(starpu_data_handle_t h, struct starpu_data_filter* f, starpu_data_handle_t* children);
void starpu_data_partition_clean(starpu_data_handle_t h, unsigned n, starpu_data_handle_t* children);
void starpu_matrix_filter_pick_variable(void* father, void* child, struct starpu_data_filter* f, unsigned id, unsigned n);
struct starpu_data_interface_ops* starpu_matrix_filter_pick_variable_child_ops(struct starpu_data_filter* f, unsigned child);
int starpu_data_acquire(starpu_data_handle_t h, enum starpu_data_access_mode m);
void starpu_data_release(starpu_data_handle_t h);
uintptr_t starpu_variable_get_local_ptr(starpu_data_handle_t h);
uintptr_t starpu_matrix_get_local_ptr(starpu_data_handle_t h);
void starpu_data_unpartition(starpu_data_handle_t h, unsigned node);
void starpu_data_unregister(starpu_data_handle_t h);
void starpu_data_unregister_submit(starpu_data_handle_t h);
struct starpu_task* starpu_task_create(void);
int starpu_task_submit(struct starpu_task* t);
int starpu_task_wait_for_all(void);
int starpu_memory_pin(void* p, size_t n);
int starpu_memory_unpin(void* p, size_t n);
int starpu_malloc(void** p, size_t n);
int starpu_free_noflag(void* p, size_t n);
unsigned starpu_cuda_worker_get_count(void);
void sim_starpu_abort(const char* what, int err);
#define STARPU_CHECK_RETURN_VALUE(err, message, ...) do { if (err != 0) sim_starpu_abort(message, err); } while (0)
#ifdef __cplusplus
}
#endif
#endif
