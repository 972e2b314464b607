/* The part of the Zephyr API that the sensor recording application uses, over the simulated kernel of zephyr_sim.cpp. */
#ifndef ZSIM_H
#define ZSIM_H
#include <errno.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
/* ---- kernel */
typedef struct { int64_t us; } k_timeout_t; /* <0: forever */
#ifdef __cplusplus
#define Z_TIMEOUT(v) (k_timeout_t{(int64_t)(v)})
#else
#define Z_TIMEOUT(v) ((k_timeout_t){(int64_t)(v)})
#endif
#define K_NO_WAIT Z_TIMEOUT(0)
#define K_FOREVER Z_TIMEOUT(-1)
#define K_USEC(t) Z_TIMEOUT(t)
#define K_MSEC(t) Z_TIMEOUT((int64_t)(t) * 1000)
#define K_SECONDS(t) Z_TIMEOUT((int64_t)(t) * 1000000)
struct k_thread { int id; };
typedef struct k_thread *k_tid_t;
typedef char k_thread_stack_t;
typedef void (*k_thread_entry_t)(void *, void *, void *);
struct k_msgq { size_t msg_size; uint32_t max_msgs; char *buffer; uint32_t read, used; };
#define K_THREAD_STACK_DEFINE(name, size) k_thread_stack_t name[size]
#define K_THREAD_STACK_SIZEOF(s) sizeof(s)
#define K_MSGQ_DEFINE(name, size, max, align) char _buf_##name[(size) * (max)] __attribute__((aligned(8))); struct k_msgq name = {(size), (max), _buf_##name, 0, 0}
k_tid_t k_thread_create(struct k_thread *t, k_thread_stack_t *stack, size_t size, k_thread_entry_t entry, void *a, void *b, void *c, int prio, uint32_t options, k_timeout_t delay);
void k_thread_abort(k_tid_t t);
int k_thread_join(struct k_thread *t, k_timeout_t timeout);
void k_thread_start(k_tid_t t);
int k_thread_name_set(k_tid_t t, const char *name);
k_tid_t k_current_get(void);
void k_msgq_init(struct k_msgq *q, char *buffer, size_t size, uint32_t max);
int k_msgq_put(struct k_msgq *q, const void *data, k_timeout_t timeout);
int k_msgq_get(struct k_msgq *q, void *data, k_timeout_t timeout);
int k_msgq_peek(struct k_msgq *q, void *data);
void k_msgq_purge(struct k_msgq *q);
uint32_t k_msgq_num_used_get(struct k_msgq *q);
uint32_t k_msgq_num_free_get(struct k_msgq *q);
int32_t k_usleep(int32_t us);
int32_t k_msleep(int32_t ms);
int32_t k_sleep(k_timeout_t t);
void k_yield(void);
void k_busy_wait(uint32_t us);
int64_t k_uptime_get(void);
uint32_t k_uptime_get_32(void);
uint32_t k_cycle_get_32(void);
void k_sched_lock(void);
void k_sched_unlock(void);
unsigned int irq_lock(void);
void irq_unlock(unsigned int key);
void printk(const char *fmt, ...);
/* ---- devices and sensors */
struct device { const char *name; int id; };
extern const struct device zsim_devices[2];
#define DEVICE_DT_GET_ONE(x) (&zsim_devices[0])
bool device_is_ready(const struct device *d);
struct sensor_value { int32_t val1, val2; };
enum sensor_channel {
    SENSOR_CHAN_ACCEL_X, SENSOR_CHAN_ACCEL_Y, SENSOR_CHAN_ACCEL_Z, SENSOR_CHAN_ACCEL_XYZ, SENSOR_CHAN_GYRO_X, SENSOR_CHAN_GYRO_Y, SENSOR_CHAN_GYRO_Z, SENSOR_CHAN_GYRO_XYZ,
    SENSOR_CHAN_MAGN_X, SENSOR_CHAN_MAGN_Y, SENSOR_CHAN_MAGN_Z, SENSOR_CHAN_DIE_TEMP, SENSOR_CHAN_ALL = 60
};
enum sensor_attribute { SENSOR_ATTR_SAMPLING_FREQUENCY, SENSOR_ATTR_FULL_SCALE };
int sensor_attr_set(const struct device *d, enum sensor_channel c, enum sensor_attribute a, const struct sensor_value *v);
int sensor_sample_fetch(const struct device *d);
int sensor_sample_fetch_chan(const struct device *d, enum sensor_channel c);
int sensor_channel_get(const struct device *d, enum sensor_channel c, struct sensor_value *v);
static inline double sensor_value_to_double(const struct sensor_value *v) { return (double)v->val1 + (double)v->val2 / 1000000; }
static inline float sensor_value_to_float(const struct sensor_value *v) { return (float)v->val1 + (float)v->val2 / 1000000; }
/* ---- logging, utilities */
#define LOG_MODULE_REGISTER(...)
#define LOG_LEVEL_INF 3
#define LOG_ERR(...) ((void)0)
#define LOG_WRN(...) ((void)0)
#define LOG_INF(...) ((void)0)
#define LOG_DBG(...) ((void)0)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ARG_UNUSED(x) (void)(x)
#define IS_ENABLED(x) 0
/* ---- storage */
FILE *zsim_fopen(const char *path, const char *mode);
int zsim_fclose(FILE *f);
#ifdef __cplusplus
}
#endif
#ifdef ZSIM_APP
#define fopen zsim_fopen
#define fclose zsim_fclose
/* block operations are loops of the code under test: they can be interrupted in the middle */
static void *zsim_memcpy(void *d, const void *s, size_t n) { unsigned char *a = (unsigned char *)d; const unsigned char *b = (const unsigned char *)s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return d; }
static void *zsim_memmove(void *d, const void *s, size_t n) { unsigned char *a = (unsigned char *)d; const unsigned char *b = (const unsigned char *)s; if (a < b) for (size_t i = 0; i < n; i++) a[i] = b[i]; else while (n--) a[n] = b[n]; return d; }
static void *zsim_memset(void *d, int v, size_t n) { unsigned char *a = (unsigned char *)d; for (size_t i = 0; i < n; i++) a[i] = v; return d; }
#define memcpy zsim_memcpy
#define memmove zsim_memmove
#define memset zsim_memset
#endif
#endif
