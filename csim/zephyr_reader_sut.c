/* The sampling thread of the Zephyr application and accessors for the simulator. */
#include "sensor_reader.c"
size_t zr_size(void) { return sizeof(struct sensor_chunk_reader); }
/* length of the output buffer, in windows */
#ifdef SENSOR_CHUNK_READER_BUFFERS
int zr_buffers(void) { return SENSOR_CHUNK_READER_BUFFERS; }
#else
int zr_buffers(void) { return 1; }
#endif
int zr_max_channels(void) { return SENSOR_CHUNK_READER_MAX_CHANNELS; }
void zr_init(void *p, int rate, int window, float *in, float *out, int channels, enum sensor_channel *ch, const struct device *dev, struct k_msgq *q, struct k_thread *t, k_thread_stack_t *stack, size_t stack_size)
{
    struct sensor_chunk_reader r = {.window_length = window, .hop_length = window, .samplerate = rate, .read_samples = in, .output_buffer = out, .n_channels = channels, .channels = ch, .dev = dev,
        .queue = q, .thread = t, .thread_priority = 10, .stack = stack, .stack_size = stack_size};
    *(struct sensor_chunk_reader *)p = r;
}
void zr_start(void *p) { sensor_chunk_reader_start(p); }
void zr_stop(void *p) { sensor_chunk_reader_stop(p); }
void zr_errors(void *p, long *e) { struct sensor_chunk_reader *r = p; e[0] = r->fetch_errors; e[1] = r->get_errors; e[2] = r->put_errors; }
