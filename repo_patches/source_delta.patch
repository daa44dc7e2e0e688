From 3fed684903c7433efe15254d744b7dfb1e1be61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 01/14] fix: slave marks the reply as in transmission before
 handing it to the driver

---
 src/modbus_slave.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..e2b663e 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,10 +194,10 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
-        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
     }
     else
     {
-- 
2.43.0


From 155049933fa728e9ebc0c8331ae2115d5cc7a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 02/14] fix: slave forgets a repeated 1.5 char notification
 when it is done with a frame

---
 src/modbus_slave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index e2b663e..8617066 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -188,12 +188,14 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
-- 
2.43.0


From 09fc0c13296f7f7c47bd37d3ac967d15aefe41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 03/14] fix: slave enables reception only after its state is
 set up and the notifications are subscribed

---
 src/modbus_slave.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 8617066..2999ae6 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -121,8 +121,8 @@ void register_app_data_to_modbus_slave_hreg_table(modbus_adr_t reg_adr, modbus_r
 void modbus_slave_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity, modbus_device_ID_t slave_ID)
 {
     init_modbus_data_buffers_and_queues(mode);
-    init_modbus_driver(mode, baud_rate, parity);
     init_modbus_slave_internall_data(slave_ID);
+    init_modbus_driver(mode, baud_rate, parity);
 }
 
 /**
@@ -287,11 +287,11 @@ static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t pa
     {
         slave_RTU_driver = get_slave_RTU_driver_interface();
         slave_RTU_driver->init(baud_rate, parity);
-        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
         slave_RTU_driver->subscribe_msg_tx_done_cb(modbus_resp_send_callback);
         slave_RTU_driver->subscribe_t_1_5_char_expired_cb(modbus_T_1_5_char_expired_callback);
         slave_RTU_driver->subscribe_t_3_5_char_expired_cb(modbus_T_3_5_char_expired_callback);
         slave_RTU_driver->subscribe_modbus_frame_error_cb(modbus_frame_error_callback);
+        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
     }
     // else if (OTHER_MODE == mode)
     else
-- 
2.43.0


From 97f8782006ab24b9bf2f92af7651904c501a7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 04/14] fix: slave initialisation drops the lengths of an
 earlier session

---
 src/modbus_slave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 2999ae6..a44fdf5 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -252,6 +252,8 @@ static void init_modbus_data_buffers_and_queues(modbus_mode_t mode)
 {
     register_msg_req_resp_data_buffers(mode);
     slave_msg_ptr = &slave_msg;
+    slave_msg_ptr->req.len = 0;
+    slave_msg_ptr->resp.len = 0;
 }
 
 /**
-- 
2.43.0


From 14f3f6f2de5bbfc71857be9f06ce8c41f5fe28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 05/14] fix: slave discards a request whose length does not
 match its function code

---
 src/modbus_slave.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a44fdf5..9d53583 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -43,6 +43,7 @@ PRIVATE modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void handle_modbus_slave_idle_state(void);
+static modbus_ret_t check_req_len_correctness(const modbus_req_resp_t *req);
 static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
@@ -166,7 +167,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (RET_OK != check_req_len_correctness(&slave_msg_ptr->req)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -174,6 +175,44 @@ static void handle_modbus_slave_idle_state(void)
     }
 }
 
+/**
+ * @brief Check that the received request has the length its function code calls for.
+ *
+ * A frame that is too short would be completed with bytes of an earlier message, so it must not be executed.
+ *
+ * @param[in] req Received request, including the slave address and the CRC.
+ * @return modbus_ret_t RET_OK when the length is right, RET_ERROR otherwise.
+ */
+static modbus_ret_t check_req_len_correctness(const modbus_req_resp_t *req)
+{
+    const uint16_t crc_len = sizeof(modbus_CRC_t);
+    uint16_t expected_len;
+
+    if (req->len < (MODBUS_FUNCTION_CODE_IDX + 1U + crc_len))
+    {
+        return RET_ERROR;
+    }
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+        expected_len = MODBUS_READ_REQUEST_LEN + crc_len;
+        break;
+    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+        expected_len = MODBUS_WRITE_MULTI_REQUEST_LEN + req->data[MODBUS_REQUEST_BYTE_CNT_IDX] + crc_len;
+        break;
+    default:
+        expected_len = req->len;
+        break;
+    }
+    return (expected_len == req->len) ? RET_OK : RET_ERROR;
+}
+
 /**
  * @brief Handles the Modbus slave state machine in the message received state.
  *
-- 
2.43.0


From ceb155ea4134bbecdd3caac0257caa7d401fbf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 06/14] fix: registering a variable at an address outside the
 slave table is ignored

---
 src/modbus_slave.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 9d53583..9fb2f17 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -66,7 +66,10 @@ static void modbus_frame_error_callback(void);
  */
 void register_app_data_to_modbus_slave_coils_table(modbus_adr_t coil_adr, modbus_coil_disin_t *app_data_ptr)
 {
-    register_app_data_to_modbus_coils_din_table(Slave_Coils, coil_adr, app_data_ptr);
+    if (coil_adr < COILS_QTY)
+    {
+        register_app_data_to_modbus_coils_din_table(Slave_Coils, coil_adr, app_data_ptr);
+    }
 }
 
 /**
@@ -79,7 +82,10 @@ void register_app_data_to_modbus_slave_coils_table(modbus_adr_t coil_adr, modbus
  */
 void register_app_data_to_modbus_slave_din_table(modbus_adr_t disin_adr, modbus_coil_disin_t *app_data_ptr)
 {
-    register_app_data_to_modbus_coils_din_table(Slave_Discrete_Inputs, disin_adr, app_data_ptr);
+    if (disin_adr < DISCRET_INPUT_QTY)
+    {
+        register_app_data_to_modbus_coils_din_table(Slave_Discrete_Inputs, disin_adr, app_data_ptr);
+    }
 }
 
 /**
@@ -92,7 +98,10 @@ void register_app_data_to_modbus_slave_din_table(modbus_adr_t disin_adr, modbus_
  */
 void register_app_data_to_modbus_slave_inreg_table(modbus_adr_t reg_adr, modbus_reg_t *app_data_ptr)
 {
-    register_app_data_to_modbus_reg_table(Slave_Input_Registers, reg_adr, app_data_ptr);
+    if (reg_adr < INPUT_REG_QTY)
+    {
+        register_app_data_to_modbus_reg_table(Slave_Input_Registers, reg_adr, app_data_ptr);
+    }
 }
 
 /**
@@ -105,7 +114,10 @@ void register_app_data_to_modbus_slave_inreg_table(modbus_adr_t reg_adr, modbus_
  */
 void register_app_data_to_modbus_slave_hreg_table(modbus_adr_t reg_adr, modbus_reg_t *app_data_ptr)
 {
-    register_app_data_to_modbus_reg_table(Slave_Holding_Registers, reg_adr, app_data_ptr);
+    if (reg_adr < HOLDING_REG_QTY)
+    {
+        register_app_data_to_modbus_reg_table(Slave_Holding_Registers, reg_adr, app_data_ptr);
+    }
 }
 
 /**
-- 
2.43.0


From d33112bc100bd730ea69de958f67dc9a88335535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 07/14] fix: master returns the message buffer of a refused
 request to the free queue

---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From 954e13dcb25760479b8b1ccfbd88c8cbbf5248a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 08/14] fix: master detects a response timeout also when the
 poll misses the last tick

---
 src/modbus_master.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..f9932d3 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -693,7 +693,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From 13e0638511c009019179772aff548c9b344ea7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 09/14] fix: master keeps a 3.5 char notification that comes
 before the poll

---
 src/modbus_master.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f9932d3..d5c9ca9 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -587,6 +587,7 @@ static void modbus_master_req_sended_callback(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
@@ -747,7 +748,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From 7083d3aabc3699cc57757aa13a1967b47b0439b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 10/14] fix: timeout report names the function code of the
 request

---
 src/modbus_master.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index d5c9ca9..e6af45d 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -721,7 +721,7 @@ void modbus_master_resp_timeout_handle(void)
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
     timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
 }
-- 
2.43.0


From 24c1adf0c052f2f109e835926f6f1fb10abdee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 11/14] fix: communication error report identifies the request,
 not the damaged response

---
 src/modbus_master.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index e6af45d..480d75b 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -843,8 +843,10 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -878,8 +880,10 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From 599b63a6a0a3e5fc5615e3e1d98dba1f5d021f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 12/14] fix: master marks the request as in transmission before
 handing it to the driver

---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 480d75b..039b280 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,10 +401,10 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
-    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
-    RTU_driver->enable_rcev(&msg_buf->resp);
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
+    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
+    RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
 /**
-- 
2.43.0


From 805b8562c5817f652e79578bed3c89b60af1ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 13/14] fix: master starts every transmission without leftovers
 of an earlier exchange

---
 src/modbus_master.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 039b280..0594412 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,6 +401,11 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    msg_buf->resp.len = 0;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
@@ -671,7 +676,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From b85e42d2aeb6301ff0e2b171824ab5cb3b3571fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 14/14] fix: master discards a response that does not answer
 the request

---
 src/modbus_master.c | 46 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 0594412..a950d35 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -83,6 +83,7 @@ static void modbus_master_transmitting_state_handling(void);
 static void modbus_master_resp_waiting_state_handling(void);
 static void modbus_master_resp_timeout_handle(void);
 static void modbus_master_RTU_recv_state_handle(void);
+static bool modbus_master_resp_match_req(const modbus_msg_t *msg);
 static void modbus_master_resp_recived_state_handling(void);
 
 static void modbus_master_msg_recived_correctly_state_handle(void);
@@ -766,10 +767,55 @@ static void modbus_master_RTU_recv_state_handle(void)
     else // RET_OK
     {
         modbus_master_disable_resp_timeout_timer();
+        if (!modbus_master_resp_match_req(msg_buf))
+        {
+            MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
+        }
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
     }
 }
 
+/**
+ * @brief Checks that a response answers the request.
+ *
+ * A response answers the request when it carries the function code of the request (or the corresponding
+ * exception code) and has the length and the byte count that the request calls for.
+ *
+ * @param[in] msg Pointer to the message with the request and the received response.
+ * @return true when the response matches the request, false otherwise.
+ */
+static bool modbus_master_resp_match_req(const modbus_msg_t *msg)
+{
+    modbus_buf_t req_fun_code = msg->req.data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_buf_t resp_fun_code = msg->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    uint32_t data_qty = read_u16_from_buf(&msg->req.data[MODBUS_REQUEST_QTY_IDX]);
+    uint32_t expected_len;
+
+    if ((req_fun_code | MODBUS_EXCEPTION_CODE_MASK) == resp_fun_code)
+    {
+        return ((MODBUS_EXCEPTION_CODE_RESP_LEN + sizeof(modbus_CRC_t)) == msg->resp.len);
+    }
+    if (req_fun_code != resp_fun_code)
+    {
+        return false;
+    }
+    switch (req_fun_code)
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        expected_len = (data_qty + 7U) / 8U;
+        break;
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        expected_len = data_qty * 2U;
+        break;
+    default: // write responses have no byte count
+        return ((MODBUS_WRITE_SINGLE_RESP_LEN + sizeof(modbus_CRC_t)) == msg->resp.len);
+    }
+    return ((expected_len == msg->resp.data[MODBUS_RESP_READ_BYTE_CNT_IDX]) &&
+            ((MODBUS_READ_RESP_LEN + expected_len + sizeof(modbus_CRC_t)) == msg->resp.len));
+}
+
 /**
  * @brief Handles the state when a Modbus response is received.
  *
-- 
2.43.0

