/* logging is outside every contract except C24/C28: the log macros become no-ops (arguments are not evaluated) */
#ifndef VF_NOLOG_H
#define VF_NOLOG_H
#define LCU_SLOG_H
#define LCU_XLOG_H
#define VF_NOP(...) ((void)0)
#define SLOGV VF_NOP
#define SLOGD VF_NOP
#define SLOGI VF_NOP
#define SLOGW VF_NOP
#define SLOGE VF_NOP
#define SLOGE_TRACE VF_NOP
#define SLOGW_TRACE VF_NOP
#define SLOGI_TRACE VF_NOP
#define SLOGD_TRACE VF_NOP
#define SLOGV_TRACE VF_NOP
#define LOGV VF_NOP
#define LOGD VF_NOP
#define LOGI VF_NOP
#define LOGW VF_NOP
#define LOGE VF_NOP
#define LOGV_TRACE VF_NOP
#define LOGD_TRACE VF_NOP
#define LOGI_TRACE VF_NOP
#define LOGW_TRACE VF_NOP
#define LOGE_TRACE VF_NOP
#define TLOGV VF_NOP
#define TLOGD VF_NOP
#define TLOGI VF_NOP
#define TLOGW VF_NOP
#define TLOGE VF_NOP
#endif
