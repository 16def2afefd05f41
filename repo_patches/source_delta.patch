From 9d433b50ceeea4e6b9ec53dc498768ea17006fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 01/39] fix: queue_put must not overwrite a node when all of
 them are in use

With every node taken (the single node is being processed by the consumer)
there is no filled node to overwrite and last_filled_node is NULL: the
non-blocking put dereferenced it. Refuse the buffer instead.
---
 src/queue.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..1596735 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -121,6 +121,12 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
         }
     }
     struct queue_node *to_fill;
+    if (queue->first_free_node == NULL && queue->last_filled_node == NULL) {
+        // the only node is being processed: nothing to overwrite
+        pthread_mutex_unlock(&queue->mutex);
+        fprintf(stderr, "<3>queue is full\n");
+        return -1;
+    }
     if (queue->first_free_node == NULL) {
         // queue is full
         // overwrite last node
-- 
2.43.0


From daecbd2b29b6f0efd74dbc0f561db0c6a551d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:50 +0000
Subject: [PATCH 02/39] fix: release the request buffer when the body cannot be
 read fully

---
 src/api_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..2345f9d 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -47,6 +47,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -68,6 +69,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
-- 
2.43.0


From 6200efcad28cc7fa2a5f05475d7b2c6f99e512e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:50 +0000
Subject: [PATCH 03/39] fix: reject tx requests without fsk_settings

handle_tx_client dereferences fsk_settings of every GMSK request.
---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..81fb95b 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -107,6 +107,10 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing mod_baud_rate parameter\n", client_id);
         return -1;
     }
+    if (req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
     if (req->doppler != NULL && req->doppler->n_tle != 3) {
         fprintf(stderr, "<3>[%d] invalid tle supplied\n", client_id);
         return -1;
-- 
2.43.0


From afefb6459b60b558ece94cf567dc61bd3be0803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:50 +0000
Subject: [PATCH 04/39] fix: reject rx requests with demod_decimation above 255

The demodulator takes an 8 bit decimation: 256 was truncated to 0 and
divided by, any other value silently demodulated with another decimation.
---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 81fb95b..b67eb47 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -149,6 +149,10 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] demod_decimation is too big: %u\n", client_id, req->demod_decimation);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
-- 
2.43.0


From 172cc91a47fd71f898f5b029751264ff292e46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:50 +0000
Subject: [PATCH 05/39] fix: gfsk_mod_create must reject unsupported samples
 per symbol

Less than 1 sample per symbol gave an interpolation factor of 0 (division by
zero), more than 255 was truncated to 8 bits and overflowed the filter output.
---
 src/dsp/gfsk_mod.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 23320fa..f7c192d 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -41,6 +41,11 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
 }
 
 int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint32_t max_input_buffer_length, gfsk_mod **mod) {
+    // interpolation factor of the filter below is 8 bit
+    if (!(samples_per_symbol >= 1.0F && samples_per_symbol < 256.0F)) {
+        fprintf(stderr, "<3>unsupported number of samples per symbol: %f\n", samples_per_symbol);
+        return -1;
+    }
     struct gfsk_mod_t *result = malloc(sizeof(struct gfsk_mod_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From 7d9f7c62bfffc420b22bd468afa388036bf0a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:50 +0000
Subject: [PATCH 06/39] fix: size tx frequency correction for a full batch of
 bytes

gfsk_mod_process turns every byte into 8 symbols. The doppler and offset
blocks were sized for 1 and dropped every batch bigger than buffer_size / 8,
while the client was told that the data has been sent.
---
 src/tcp_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b67eb47..30bc848 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -543,7 +543,8 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
     int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    // every byte is 8 symbols
+    uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
-- 
2.43.0


From 45fccc2a2aa44c7b769b98036018e81307c648c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:51 +0000
Subject: [PATCH 07/39] fix: fir_filter must not lose the end of its history
 with decimation

With decimation above 1 the history can hold less than taps_len - 1 samples:
a short input made working_len - (taps_len - 1) wrap around and the filter
read and wrote far behind its buffers. With decimation above taps_len the
next output can start behind the last sample: the history length wrapped
around. Carry the distance over to the next call.
---
 src/dsp/fir_filter.c | 24 ++++++++++++++++++------
 src/dsp/fir_filter.h |  2 ++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..b1f2323 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -94,16 +94,22 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
                               fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    size_t i = filter->skip;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
-    for (; i < max_index; i += filter->decimation, produced++) {
+    // working_len can be less than taps_len if decimation is more than 1
+    for (; i + filter->taps_len <= working_len; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
         *output_pointer = *(float *) filter ->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    } else {
+        filter->skip = 0;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -124,16 +130,22 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
                                 size_t *output_len, fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    size_t i = filter->skip;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
-    for (; i < max_index; i += filter->decimation, produced++) {
+    // working_len can be less than taps_len if decimation is more than 1
+    for (; i + filter->taps_len <= working_len; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
         *output_pointer = *(float complex *) filter->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    } else {
+        filter->skip = 0;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
diff --git a/src/dsp/fir_filter.h b/src/dsp/fir_filter.h
index 1ad8583..84cd280 100644
--- a/src/dsp/fir_filter.h
+++ b/src/dsp/fir_filter.h
@@ -17,6 +17,8 @@ struct fir_filter_t {
 
     void *working_buffer;
     size_t history_offset;
+    // samples still to be skipped before the next output. can be positive if decimation is more than taps_len
+    size_t skip;
     size_t working_len_total;
     void *volk_output;
     size_t max_input_buffer_length;
-- 
2.43.0


From c986e1f41f99ebf029de2f3a0d5feb56a51c8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:02 +0000
Subject: [PATCH 08/39] fix: clock recovery must stay inside its buffers

- with more than one output per input (omega below 1) or with a step bigger
  than 8 samples the history grew over the working buffer. A step behind the
  end of the input also made the last symbol be produced twice: carry the
  distance over to the next call instead.
- infinite or huge input made mu not finite, and it is used as an index.
---
 src/dsp/clock_recovery_mm.c | 40 ++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..a8423b7 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -19,6 +19,8 @@ struct clock_mm_t {
 
     float *working_buffer;
     size_t history_offset;
+    // samples of the next input to skip
+    size_t skip;
     size_t working_len_total;
 
     float *output;
@@ -75,6 +77,18 @@ static inline float branchless_clip(float x, float clip) {
     return 0.5F * (fabsf(x + clip) - fabsf(x - clip));
 }
 
+// number of whole samples in the step, limited to sane values
+static size_t clock_mm_advance(float step, const clock_mm *clock) {
+    float whole = floorf(step);
+    if (!(whole > 0.0f)) {
+        return 0;
+    }
+    if (whole >= (float) clock->working_len_total) {
+        return clock->working_len_total;
+    }
+    return (size_t) whole;
+}
+
 void clock_mm_process(const float *input, size_t input_len, float **output, size_t *output_len, clock_mm *clock) {
     // even if mu == 1 input buffer should not be more than output buffer
     if (input_len > clock->output_len) {
@@ -86,9 +100,8 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
     int taps_len = mmse_fir_interpolator_taps(clock->interp);
-    int ii = 0;                                  // input index
-    int oo = 0;                                  // output index
-    int previous = 0;
+    size_t ii = clock->skip;                     // input index
+    size_t oo = 0;                               // output index
     size_t working_len = clock->history_offset + input_len;
     // not enough input
     if (working_len < taps_len) {
@@ -104,31 +117,40 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
         // produce output sample
         clock->output[oo] = mmse_fir_interpolator_process(clock->working_buffer + ii, clock->mu,
                                                           clock->interp);
-        if (isnan(clock->output[oo])) {
+        if (!isfinite(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
-            ii += (int) floorf(clock->omega);
+            ii += clock_mm_advance(clock->omega, clock);
             oo++;
             continue;
         }
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
         clock->omega = clock->omega + clock->gain_omega * mm_val;
         clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
         clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
-        ii += (int) floorf(clock->mu);
+        if (!isfinite(clock->mu)) {
+            // arithmetic overflow on huge input
+            clock->omega = clock->omega_mid;
+            clock->mu = clock->omega_mid;
+        }
+        ii += clock_mm_advance(clock->mu, clock);
         clock->mu = clock->mu - floorf(clock->mu);
         oo++;
     }
 
     size_t last_index;
     if (ii > working_len) {
-        last_index = previous;
+        last_index = working_len;
+        clock->skip = ii - working_len;
     } else {
         last_index = ii;
+        clock->skip = 0;
+    }
+    // output is full and input is not fully processed
+    if (working_len - last_index >= (size_t) taps_len) {
+        last_index = working_len - (taps_len - 1);
     }
     clock->history_offset = working_len - last_index;
 
-- 
2.43.0


From c32d5db3a1df96c6b10f03a6a0ee67a085cb323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:54 +0000
Subject: [PATCH 09/39] fix: timeout in the middle of a message must not look
 like an idle connection

---
 src/tcp_utils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 6fee683..cf4c07c 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -45,5 +45,11 @@ int tcp_utils_read_data_partially(void *result, size_t len_bytes, size_t *actual
 
 int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket) {
     size_t actually_read = 0;
-    return tcp_utils_read_data_partially(result, len_bytes, &actually_read, client_socket);
+    int code = tcp_utils_read_data_partially(result, len_bytes, &actually_read, client_socket);
+    if (code < -1 && actually_read > 0) {
+        // timeout in the middle of the message. the bytes already read are lost for the caller,
+        // so this must not look like an idle connection
+        return -1;
+    }
+    return code;
 }
-- 
2.43.0


From f5f55d050da985f5ab580c6a7583d206426361d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:23 +0000
Subject: [PATCH 10/39] fix: close the client socket once when the client
 cannot be initialized

---
 src/tcp_server.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 30bc848..ee448ee 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -181,6 +181,12 @@ void tcp_server_write_response_and_close(int client_socket, ResponseStatus statu
     close(client_socket);
 }
 
+void tcp_server_write_response_and_shutdown(int client_socket, ResponseStatus status, uint32_t details) {
+    api_utils_write_response(client_socket, status, details);
+    // client thread is already running. it will detect the shutdown and close the socket
+    shutdown(client_socket, SHUT_RDWR);
+}
+
 void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     TxData *data = NULL;
     int code = api_utils_read_tx_data(worker->client_socket, header, &data);
@@ -607,7 +613,7 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
 
     code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
         return;
     }
@@ -667,7 +673,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     dsp_worker *dsp_worker = NULL;
     code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
         return;
     }
@@ -676,7 +682,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
     pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
+        tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, -code);
         // this will trigger sdr_worker destroy if any
         tcp_worker_destroy(tcp_worker);
         dsp_worker_destroy(dsp_worker);
-- 
2.43.0


From b521e05c983611ddca0f5df5d21855bdaf5d6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:20 +0000
Subject: [PATCH 11/39] fix: release rx device when the sdr worker cannot be
 started

---
 src/sdr_worker.c | 3 ++-
 src/tcp_server.c | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..0d25733 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -71,7 +71,8 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     pthread_t sdr_thread;
     int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
     if (code != 0) {
-        sdr_worker_destroy(result);
+        // rx and rx_device still belong to the caller
+        free(result);
         return code;
     }
     result->sdr_thread = sdr_thread;
diff --git a/src/tcp_server.c b/src/tcp_server.c
index ee448ee..187ade2 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -428,6 +428,8 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             // take id from the first tcp client
             code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
             if (code != 0) {
+                rx_device->destroy(rx_device->plugin);
+                free(rx_device);
                 free(rx);
                 return -RESPONSE_DETAILS_INTERNAL_ERROR;
             }
@@ -463,6 +465,8 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
+            rx_device->destroy(rx_device->plugin);
+            free(rx_device);
             free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
@@ -478,6 +482,8 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
+            rx_device->destroy(rx_device->plugin);
+            free(rx_device);
             free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
-- 
2.43.0


From 0567159409ab7e42e601db6c1b895bc14892fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:46 +0000
Subject: [PATCH 12/39] fix: dsp worker must be destroyed once when the rx
 client cannot be registered

---
 src/tcp_server.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 187ade2..a845bb2 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -407,7 +407,7 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
     return 0;
 }
 
-int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
+int tcp_server_init_rx_device(dsp_worker **dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
     if (code != 0) {
@@ -494,10 +494,12 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         return -1;
     }
 
-    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
+    code = sdr_worker_add_dsp_worker(*dsp_worker, tcp_worker->sdr);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
+    // dsp_worker belongs to sdr_worker from now on
+    *dsp_worker = NULL;
 
     code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
@@ -685,7 +687,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
 
     pthread_mutex_lock(&server->mutex);
-    code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
+    code = tcp_server_init_rx_device(&dsp_worker, server, tcp_worker);
     pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
         tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, -code);
-- 
2.43.0


From bc6b4b80dbeff26498d7a1fd54d8bf39d238938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:35 +0000
Subject: [PATCH 13/39] fix: rx client might disconnect before it is
 initialized

---
 src/tcp_server.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index a845bb2..84dc938 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -286,7 +286,12 @@ static void *tcp_worker_callback(void *arg) {
     }
     //terminate dsp_worker if any
     //terminate sdr_worker if no more dsp_workers there
-    sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
+    //new clients must not attach to this sdr_worker through the client which is going away
+    pthread_mutex_lock(&worker->server->mutex);
+    sdr_worker *sdr = worker->sdr;
+    worker->sdr = NULL;
+    pthread_mutex_unlock(&worker->server->mutex);
+    sdr_worker_destroy_by_dsp_worker_id(worker->id, sdr);
     //terminate tx device if any
     if (worker->tx_device != NULL) {
         worker->tx_device->destroy(worker->tx_device->plugin);
@@ -669,9 +674,12 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
 
     tcp_worker->is_running = true;
 
+    // client might disconnect at any time. its thread must not release the socket and the sdr before they are fully initialized
+    pthread_mutex_lock(&server->mutex);
     pthread_t client_thread;
     int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
+        pthread_mutex_unlock(&server->mutex);
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
         return;
@@ -682,15 +690,15 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
     if (code != 0) {
         tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        pthread_mutex_unlock(&server->mutex);
         tcp_worker_destroy(tcp_worker);
         return;
     }
 
-    pthread_mutex_lock(&server->mutex);
     code = tcp_server_init_rx_device(&dsp_worker, server, tcp_worker);
-    pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
         tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, -code);
+        pthread_mutex_unlock(&server->mutex);
         // this will trigger sdr_worker destroy if any
         tcp_worker_destroy(tcp_worker);
         dsp_worker_destroy(dsp_worker);
@@ -701,6 +709,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
+    pthread_mutex_unlock(&server->mutex);
 }
 
 static void *acceptor_worker(void *arg) {
-- 
2.43.0


From 321bd49488408ea3fe54f590e47207e0e6fedf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:01 +0000
Subject: [PATCH 14/39] fix: release the server socket when the server cannot
 be started

---
 src/tcp_server.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 84dc938..ba436ad 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -785,7 +785,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->tcp_workers = NULL;
 
     int server_socket = socket(AF_INET, SOCK_STREAM, 0);
-    if (server_socket == 0) {
+    if (server_socket < 0) {
         free(result);
         perror("socket creation failed");
         return -1;
@@ -799,15 +799,17 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->client_counter = -1;
     int opt = 1;
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt))) {
-        free(result);
         perror("setsockopt - SO_REUSEADDR");
+        close(server_socket);
+        free(result);
         return -1;
     }
 
 #ifdef SO_REUSEPORT
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt))) {
-        free(result);
         perror("setsockopt - SO_REUSEPORT");
+        close(server_socket);
+        free(result);
         return -1;
     }
 #endif
@@ -815,6 +817,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     struct sockaddr_in address;
     address.sin_family = AF_INET;
     if (inet_pton(AF_INET, config->bind_address, &address.sin_addr) <= 0) {
+        close(server_socket);
         free(result);
         fprintf(stderr, "invalid address: %s\n", config->bind_address);
         return -1;
@@ -822,19 +825,22 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     address.sin_port = htons(config->port);
 
     if (bind(server_socket, (struct sockaddr *) &address, sizeof(address)) < 0) {
-        free(result);
         perror("bind failed");
+        close(server_socket);
+        free(result);
         return -1;
     }
     if (listen(server_socket, 3) < 0) {
-        free(result);
         perror("listen failed");
+        close(server_socket);
+        free(result);
         return -1;
     }
 
     pthread_t acceptor_thread;
     int code = pthread_create(&acceptor_thread, NULL, &acceptor_worker, result);
     if (code != 0) {
+        close(server_socket);
         free(result);
         return -1;
     }
-- 
2.43.0


From 0d24cc8255e7f49e2761a95e4fd57a533794f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 15/39] fix: release tx device when the client thread cannot be
 started

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index ba436ad..c648492 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -619,6 +619,10 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
     code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        if (tcp_worker->tx_device != NULL) {
+            tcp_worker->tx_device->destroy(tcp_worker->tx_device->plugin);
+            free(tcp_worker->tx_device);
+        }
         tcp_worker_destroy(tcp_worker);
         return;
     }
-- 
2.43.0


From 10076ba98972bc5192b50f11efa444af409ebaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:41 +0000
Subject: [PATCH 16/39] fix: do not lose samples received before the read
 timeout

---
 src/sdr/sdr_server_client.c | 13 +++++++++++--
 src/sdr_worker.c            |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..e03bb5f 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -17,6 +17,10 @@ struct sdr_server_client_t {
 
     float complex *output;
     size_t output_len;
+
+    // beginning of the sample which was not fully received yet
+    uint8_t partial[sizeof(float complex)];
+    size_t partial_len;
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -150,8 +154,13 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
+    uint8_t *buffer = (uint8_t *) client->output;
+    memcpy(buffer, client->partial, client->partial_len);
+    int code = tcp_utils_read_data_partially(buffer + client->partial_len, sizeof(float complex) * client->output_len - client->partial_len, &actually_read, client->client_socket);
+    actually_read += client->partial_len;
+    client->partial_len = actually_read % sizeof(float complex);
+    memcpy(client->partial, buffer + actually_read - client->partial_len, client->partial_len);
+    if (actually_read >= sizeof(float complex)) {
         *output = client->output;
         *output_len = actually_read / sizeof(float complex);
     } else {
diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 0d25733..88f39c4 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -34,7 +34,7 @@ static void *sdr_worker_callback(void *arg) {
     struct array_t output;
     while (true) {
         int code = worker->rx_device->sdr_process_rx(&output.output, &output.output_len, worker->rx_device->plugin);
-        if (code < -1) {
+        if (code < -1 && output.output_len == 0) {
             // read timeout happened. it's ok.
             continue;
         }
-- 
2.43.0


From b5bef135b9f0de3af72aa2861ad4916e6eba1118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:43:08 +0000
Subject: [PATCH 17/39] fix: close the connection when sdr server rejects the
 request

---
 src/sdr/sdr_server_client.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index e03bb5f..6a7bd08 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -89,11 +89,13 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
     code = sdr_server_client_request(req, &response, client);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to send request to sdr server\n", id);
+        close(client->client_socket);
         sdr_server_client_destroy(client);
         return code;
     }
     if (response->status != SDR_SERVER_RESPONSE_STATUS_SUCCESS) {
         fprintf(stderr, "<3>[%d] request to sdr server rejected: %d\n", id, response->details);
+        close(client->client_socket);
         sdr_server_client_destroy(client);
         free(response);
         return -1;
@@ -102,6 +104,7 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
 
     struct sdr_device_t *result = malloc(sizeof(struct sdr_device_t));
     if (result == NULL) {
+        close(client->client_socket);
         sdr_server_client_destroy(client);
         return -ENOMEM;
     }
-- 
2.43.0


From 8c5cc48c095748209a9284aeb9ee8dfddafc554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:43:34 +0000
Subject: [PATCH 18/39] fix: dc_blocker needs at least 1 element in the delay
 line

---
 src/dsp/dc_blocker.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/dc_blocker.c b/src/dsp/dc_blocker.c
index c5b7b7c..407ea07 100644
--- a/src/dsp/dc_blocker.c
+++ b/src/dsp/dc_blocker.c
@@ -64,6 +64,10 @@ float moving_average_process(float input, struct moving_average *mavg) {
 }
 
 int dc_blocker_create(int length, dc_blocker **blocker) {
+    // the shortest delay line has 1 element
+    if (length < 2) {
+        return -1;
+    }
     struct dc_blocker_t *result = malloc(sizeof(struct dc_blocker_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From dc2ac30bc6cf8edda34da3b2732002940919c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:00 +0000
Subject: [PATCH 19/39] fix: satellite name might start with the operational
 status

---
 src/sgpsdp/sgp_in.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index bc0c0d7..641f7d2 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -291,7 +291,7 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
                 }
 
                 /* terminate sat_name string */
-                tle->sat_name[idx - 1] = '\0';
+                tle->sat_name[idx > 0 ? idx - 1 : 0] = '\0';
 
                 /* force loop exit */
                 idx = 25;
-- 
2.43.0


From 3c6007314c335b70e0ce5bbfa15fb5f842abd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:42 +0000
Subject: [PATCH 20/39] fix: reject configuration where a string setting has
 another type

---
 src/server_config.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..7086483 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -12,6 +12,10 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
         value = default_value;
     } else {
         value = config_setting_get_string(setting);
+        if (value == NULL) {
+            fprintf(stderr, "<3>invalid string value: %s\n", config_setting_name(setting));
+            return NULL;
+        }
     }
     size_t length = strlen(value);
     char *result = malloc(sizeof(char) * length + 1);
@@ -117,6 +121,12 @@ int server_config_create(struct server_config **config, const char *path) {
         rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
     } else {
         const char *rx_sdr_type_str = config_setting_get_string(setting);
+        if (rx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>rx_sdr_type should be a string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
             rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
         } else if (strcmp(rx_sdr_type_str, "plutosdr") == 0) {
@@ -158,6 +168,12 @@ int server_config_create(struct server_config **config, const char *path) {
         tx_sdr_type = TX_SDR_TYPE_NONE;
     } else {
         const char *tx_sdr_type_str = config_setting_get_string(setting);
+        if (tx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>tx_sdr_type should be a string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
             tx_sdr_type = TX_SDR_TYPE_PLUTOSDR;
         } else if (strcmp(tx_sdr_type_str, "none") == 0) {
-- 
2.43.0


From 70bb70b708762418229c4eb904be2bb484e800e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:11 +0000
Subject: [PATCH 21/39] fix: rx plutosdr needs the iio library even without tx

---
 src/server_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index 7086483..134f391 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -189,7 +189,7 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
-- 
2.43.0


From 2dd53ee2bb7d9c9401974223bdb32aebd96a4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:57 +0000
Subject: [PATCH 22/39] fix: tx data from an rx client must not hang its thread

---
 src/tcp_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index c648492..6dfe1a6 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -195,6 +195,12 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
         api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
         return;
     }
+    if (worker->tx_req == NULL) {
+        fprintf(stderr, "<3>[%d] rx client cannot transmit\n", worker->id);
+        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
+        tx_data__free_unpacked(data, NULL);
+        return;
+    }
     size_t left = data->data.len;
     uint32_t processed = 0;
     while (left > 0) {
-- 
2.43.0


From 6f9be524548f11f416d5edc78c427c3181f85c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:31:25 +0000
Subject: [PATCH 23/39] fix: tx client may disconnect before the response is
 written

---
 src/tcp_server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 6dfe1a6..2b40461 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -621,9 +621,12 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
 
     tcp_worker->is_running = true;
 
+    // client might disconnect at any time. its thread must not release the socket before the response is written
+    pthread_mutex_lock(&server->mutex);
     pthread_t client_thread;
     code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
+        pthread_mutex_unlock(&server->mutex);
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         if (tcp_worker->tx_device != NULL) {
             tcp_worker->tx_device->destroy(tcp_worker->tx_device->plugin);
@@ -637,6 +640,7 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
     code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
         tcp_server_write_response_and_shutdown(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        pthread_mutex_unlock(&server->mutex);
         tcp_worker_destroy(tcp_worker);
         return;
     }
@@ -646,6 +650,7 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
             tcp_worker->tx_req->mod_baud_rate);
+    pthread_mutex_unlock(&server->mutex);
 }
 
 void handle_rx_client(int client_socket, struct message_header *header, tcp_server *server) {
-- 
2.43.0


From 121baee93741d6ab0fa73bcb2f57896f0f781716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:03 +0000
Subject: [PATCH 24/39] fix: a client that could not attach must not keep the
 shared sdr

---
 src/tcp_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 2b40461..bfe5e46 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -420,6 +420,7 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
 
 int tcp_server_init_rx_device(dsp_worker **dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
+    bool shared = false;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
@@ -447,6 +448,7 @@ int tcp_server_init_rx_device(dsp_worker **dsp_worker, tcp_server *server, struc
             tcp_worker->sdr = sdr;
         } else {
             tcp_worker->sdr = closest->sdr;
+            shared = true;
             free(rx);
         }
     } else if (server->server_config->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
@@ -507,6 +509,10 @@ int tcp_server_init_rx_device(dsp_worker **dsp_worker, tcp_server *server, struc
 
     code = sdr_worker_add_dsp_worker(*dsp_worker, tcp_worker->sdr);
     if (code != 0) {
+        if (shared) {
+            // other clients might release it at any time
+            tcp_worker->sdr = NULL;
+        }
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
     // dsp_worker belongs to sdr_worker from now on
-- 
2.43.0


From 4e869502e90b83b6845aa941964bbcf1c750fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:29:17 +0000
Subject: [PATCH 25/39] fix: low pass filter with a single tap must not be NaN

---
 src/dsp/lpf_taps.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 453e9cd..60e5111 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -45,6 +45,12 @@ int create_hamming_window(int ntaps, float **output) {
         return -ENOMEM;
     }
     int m = ntaps - 1;
+    if (m == 0) {
+        // the only tap. do not divide by 0
+        result[0] = 1.0F;
+        *output = result;
+        return 0;
+    }
     for (int n = 0; n < ntaps; n++) {
         result[n] = (float) (0.54 - 0.46 * cos((2 * M_PI * n) / m));
     }
-- 
2.43.0


From 567018d3dd9ed090cfc7b15f855eddf62b39b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:05 +0000
Subject: [PATCH 26/39] fix: clock recovery step can be longer than a small
 buffer

---
 src/dsp/clock_recovery_mm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index a8423b7..d17729b 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -83,8 +83,13 @@ static size_t clock_mm_advance(float step, const clock_mm *clock) {
     if (!(whole > 0.0f)) {
         return 0;
     }
-    if (whole >= (float) clock->working_len_total) {
-        return clock->working_len_total;
+    // regular step is about omega samples
+    float max_step = 2 * fabsf(clock->omega_mid) + (float) clock->working_len_total;
+    if (!(whole < max_step)) {
+        whole = floorf(max_step);
+    }
+    if (!(whole < 1e9f)) {
+        return (size_t) 1e9f;
     }
     return (size_t) whole;
 }
-- 
2.43.0


From da479ecfad81efdfcd2518e6ae72664b947f9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:14 +0000
Subject: [PATCH 27/39] fix: gfsk modulator leaks taps when out of memory

---
 src/dsp/gfsk_mod.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index f7c192d..1b4fc28 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -22,6 +22,7 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     }
     float *temp = malloc(sizeof(float) * result_len);
     if (temp == NULL) {
+        free(result);
         return -ENOMEM;
     }
     memset(temp, 0, sizeof(float) * result_len);
-- 
2.43.0


From ed723aca682ea82d8dbd71667d9becde921b2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:14 +0000
Subject: [PATCH 28/39] fix: fir filter does not check aligned taps for out of
 memory

---
 src/dsp/fir_filter.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index b1f2323..a4dff01 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -10,11 +10,18 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
     // Make a set of taps at all possible alignments
     float **result = malloc(number_of_aligned * sizeof(float *));
     if (result == NULL) {
-        return -1;
+        return -ENOMEM;
     }
     for (int i = 0; i < number_of_aligned; i++) {
         size_t aligned_taps_len = taps_len + number_of_aligned - 1;
         result[i] = (float *) volk_malloc(aligned_taps_len * sizeof(float), filter->alignment);
+        if (result[i] == NULL) {
+            for (int j = 0; j < i; j++) {
+                volk_free(result[j]);
+            }
+            free(result);
+            return -ENOMEM;
+        }
         // some taps will be longer than original, but
         // since they contain zeros, multiplication on an input will produce 0
         // there is a tradeoff: multiply unaligned input or
-- 
2.43.0


From dd5a62a21f2476a6e0166c2e092bf78748b7bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:29 +0000
Subject: [PATCH 29/39] fix: taps are leaked or freed twice when filter cannot
 be created

---
 src/dsp/fir_filter.c        | 4 +++-
 src/dsp/interp_fir_filter.c | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index a4dff01..c77a0aa 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -41,12 +41,15 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
 
 int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
                       size_t max_input_buffer_length, size_t num_bytes, fir_filter **filter) {
+    // taps belong to the filter, they are released even if it cannot be created
     struct fir_filter_t *result = malloc(sizeof(struct fir_filter_t));
     if (result == NULL) {
+        free(taps);
         return -ENOMEM;
     }
     // init all fields with 0 so that destroy_* method would work
     *result = (struct fir_filter_t) {0};
+    result->original_taps = taps;
 
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
@@ -62,7 +65,6 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     result->decimation = decimation;
     result->num_bytes = num_bytes;
-    result->original_taps = taps;
     result->taps_len = taps_len;
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
diff --git a/src/dsp/interp_fir_filter.c b/src/dsp/interp_fir_filter.c
index 183803a..4728d3f 100644
--- a/src/dsp/interp_fir_filter.c
+++ b/src/dsp/interp_fir_filter.c
@@ -117,7 +117,6 @@ int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation
         code = fir_filter_create(1, interleaved_taps[i], filter_taps_len, max_input_buffer_length, sizeof(float), &curFilter);
         //init all filters anyway
         if (code != 0) {
-            free(interleaved_taps[i]);
             result_code = code;
             result->filters[i] = NULL;
         } else {
-- 
2.43.0


From 790e1a44988917abb6cfc7df19c481a24bcb3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:29 +0000
Subject: [PATCH 30/39] fix: fir filter must not fail because of earlier ERANGE
 error

---
 src/dsp/fir_filter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index c77a0aa..73559ea 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -53,6 +53,7 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
+        errno = 0;
         result->alignment = strtol(alignment_override, (char **) NULL, 10);
         if (errno == ERANGE || result->alignment == 0) {
             fprintf(stderr, "<3>invalid VOLK_ALIGNMENT specified: %s\n", alignment_override);
-- 
2.43.0


From c14c1359d1f8a1c070f540d13891b36eaec903e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:29 +0000
Subject: [PATCH 31/39] fix: plutosdr configuration is leaked when out of
 memory

---
 src/sdr/plutosdr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..c12d48d 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -451,6 +451,9 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     struct plutosdr_t *pluto = malloc(sizeof(struct plutosdr_t));
     if (pluto == NULL) {
+        // configuration belongs to the device
+        free(rx_config);
+        free(tx_config);
         return -ENOMEM;
     }
     *pluto = (struct plutosdr_t) {0};
-- 
2.43.0


From 195fd6c40f0cf0645c9dbe2930c0c1c86c3dc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:37 +0000
Subject: [PATCH 32/39] fix: sdr worker must not wait forever for the dsp
 worker that stopped

---
 src/dsp_worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..577bc34 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -101,6 +101,8 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // nobody will take the data anymore, so sdr_worker must not wait for the free space
+    interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
     return (void *) 0;
 }
-- 
2.43.0


From e21a5e4727881c2f72329455dc4e6d403d445ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:35:40 +0000
Subject: [PATCH 33/39] fix: missing ad9361-phy device or channel must be
 reported

---
 src/sdr/plutosdr.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index c12d48d..34bd935 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -191,11 +191,15 @@ static char *plutosdr_format_channel_name(const char *type, int id) {
 }
 
 static struct iio_channel *plutosdr_find_phy_channel(struct iio_context *ctx, enum iio_direction d, const char *channel_name, plutosdr *iio) {
+    struct iio_device *phy_device = iio->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        return NULL;
+    }
     switch (d) {
         case RX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, false);
+            return iio->lib->iio_device_find_channel(phy_device, channel_name, false);
         case TX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, true);
+            return iio->lib->iio_device_find_channel(phy_device, channel_name, true);
         default:
             return NULL;
     }
@@ -221,18 +225,26 @@ static int plutosdr_write_lli(struct iio_channel *chn, const char *what, long lo
 int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pluto) {
     int ret = pluto->lib->iio_device_attr_write_bool(dev, "in_out_voltage_filter_fir_en", enable);
     if (ret < 0) {
-        ret = pluto->lib->iio_channel_attr_write_bool(pluto->lib->iio_device_find_channel(dev, "out", false), "voltage_filter_fir_en", enable);
+        struct iio_channel *channel = pluto->lib->iio_device_find_channel(dev, "out", false);
+        if (channel == NULL) {
+            return ret;
+        }
+        ret = pluto->lib->iio_channel_attr_write_bool(channel, "voltage_filter_fir_en", enable);
     }
     return ret;
 }
 
 static struct iio_channel *plutosdr_find_lo_channel(struct iio_context *ctx, enum iio_direction d, plutosdr *pluto) {
+    struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        return NULL;
+    }
     switch (d) {
         // LO chan is always output, i.e. true
         case RX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage0", true);
+            return pluto->lib->iio_device_find_channel(phy_device, "altvoltage0", true);
         case TX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage1", true);
+            return pluto->lib->iio_device_find_channel(phy_device, "altvoltage1", true);
         default:
             return NULL;
     }
@@ -342,6 +354,10 @@ int plutosdr_setup_fir_filter(struct iio_context *ctx, struct stream_cfg *rx_con
     }
 
     struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find ad9361-phy\n");
+        return -1;
+    }
 
     // filter is not needed
     if (rx_fir_filter_taps == NULL && tx_fir_filter_taps == NULL) {
-- 
2.43.0


From 66f5d0966af11e0fc1def0c8c4e030fdc83b8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:35:49 +0000
Subject: [PATCH 34/39] fix: plutosdr transmission never ends when the buffer
 has a single sample

---
 src/sdr/plutosdr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 34bd935..248e21a 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -73,7 +73,8 @@ int plutosdr_process_tx(float complex *input, size_t input_len, void *plugin) {
         char *p_start = (char *) iio->lib->iio_buffer_first(iio->tx_buffer, iio->tx0_i);
         size_t batch;
         if (left > iio->output_len / 2) {
-            batch = iio->output_len / 2;
+            // at least 1 sample even if the buffer has only 1
+            batch = iio->output_len > 1 ? iio->output_len / 2 : 1;
         } else {
             batch = left;
         }
-- 
2.43.0


From 1d0a67cf07405e9af9c7874a782fc4aa161eec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:17 +0000
Subject: [PATCH 35/39] fix: plutosdr gain without the decimal point is ignored

---
 src/server_config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server_config.c b/src/server_config.c
index 134f391..1f3f208 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -37,6 +37,8 @@ int server_config_create(struct server_config **config, const char *path) {
 
     config_t libconfig;
     config_init(&libconfig);
+    // gain can be specified without the decimal point
+    config_set_auto_convert(&libconfig, CONFIG_TRUE);
 
     int code = config_read_file(&libconfig, path);
     if (code == CONFIG_FALSE) {
-- 
2.43.0


From e1eb422a04cec1b411fb0e2d3d4b3f70809e9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:46:57 +0000
Subject: [PATCH 36/39] fix: gfsk modulator output buffer length overflow

---
 src/dsp/gfsk_mod.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 1b4fc28..7c8d6c3 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -47,6 +47,11 @@ int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint3
         fprintf(stderr, "<3>unsupported number of samples per symbol: %f\n", samples_per_symbol);
         return -1;
     }
+    // every byte is 8 symbols. length of the output buffer is 32 bit
+    if ((uint64_t) max_input_buffer_length * 8 * (uint64_t) samples_per_symbol > UINT32_MAX) {
+        fprintf(stderr, "<3>input buffer is too big: %u\n", max_input_buffer_length);
+        return -1;
+    }
     struct gfsk_mod_t *result = malloc(sizeof(struct gfsk_mod_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From 6470e1ba08f1534edec3998f739bb1adb8fa6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:41:00 +0000
Subject: [PATCH 37/39] fix: a failed write of the file device was reported as
 success

---
 src/sdr/file_source.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index 599628d..b8ce2b7 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -143,11 +143,13 @@ int file_source_process_tx(float complex *input, size_t input_len, void *plugin)
         float complex *sig_output = NULL;
         size_t sig_output_len = 0;
         sig_source_multiply(device->freq_offset, input, input_len, &sig_output, &sig_output_len, device->signal);
-        //ignore actually written
-        fwrite(sig_output, sizeof(float complex), sig_output_len, device->tx_file);
-    } else {
-        //ignore actually written
-        fwrite(input, sizeof(float complex), input_len, device->tx_file);
+        input = sig_output;
+        input_len = sig_output_len;
+    }
+    size_t actually_written = fwrite(input, sizeof(float complex), input_len, device->tx_file);
+    if (actually_written != input_len) {
+        fprintf(stderr, "<3>[%d] unable to write: %zu of %zu samples written\n", device->id, actually_written, input_len);
+        return -1;
     }
     return 0;
 }
-- 
2.43.0


From 4e6275ebe5e553caf5adca1f1c121635208d8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:35 +0000
Subject: [PATCH 38/39] fix: a doppler shift of exactly zero restarted the pass

---
 src/dsp/doppler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 7fddc2f..73cc7d1 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -149,7 +149,8 @@ void doppler_process(float complex *input, size_t input_len, float complex **out
         // This would assume sample rate is taken evenly during the second
         if (result->current_samples >= result->update_interval_samples) {
             result->current_samples = 0;
-            if (result->next_freq_difference == 0) {
+            // not started yet. next_freq_difference cannot tell that: shift can be 0 at any moment
+            if (result->satellite->jul_utc == 0.0) {
                 // start time can be 0
                 // in that case correction is happening in realtime
                 // take current system time
-- 
2.43.0


From 4366de851e7226d09df5db12fa716e37642d4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:46 +0000
Subject: [PATCH 39/39] fix: a plutosdr device that could not be created
 released the context of another device

---
 src/sdr/plutosdr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 248e21a..d911595 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -486,7 +486,10 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     pthread_mutex_unlock(&global_iio_mutex);
     if (code != 0) {
-        plutosdr_destroy(pluto);
+        // the context belongs to other devices, if any
+        free(rx_config);
+        free(tx_config);
+        free(pluto);
         return -1;
     }
 
-- 
2.43.0

