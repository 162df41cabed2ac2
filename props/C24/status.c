/* Real status.c and exceptionsc.c: every status, file name and allocation
 * failure within bounds. */
#include <stdlib.h>
#include <stdio.h>
#include "status.h"
#include "exceptions.h"
#include "fiftyone.h"
#include "h_alloc.h"
#ifndef NAME
#define NAME 3
#endif
#define LAST FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR
static const int withFile[] = { CORRUPT_DATA, INCORRECT_VERSION, FILE_NOT_FOUND, FILE_FAILURE, TOO_MANY_OPEN_FILES,
	REQ_PROP_NOT_PRESENT, COLLECTION_FAILURE, FILE_COPY_ERROR, FILE_WRITE_ERROR, FILE_PERMISSION_DENIED,
	FILE_PATH_TOO_LONG, ENCODING_ERROR, COLLECTION_FILE_SEEK_FAIL, COLLECTION_FILE_READ_FAIL };
/* Codes that had no message of their own: only the code itself */
static int concernsFile(int s) {
	unsigned i;
	for (i = 0; i < sizeof(withFile) / sizeof(*withFile); i++) if (withFile[i] == s) return 1;
	return 0;
}
static int anyStatus(void) {
	static const int other[] = { -1, LAST + 1, 1000, 99999999, 2147483647, -2147483647 - 1, -12345678 };
	int s = (int)VERIF_SPLIT(verif_range(0, LAST + sizeof(other) / sizeof(*other)));
	return s <= LAST ? s : other[s - LAST - 1];
}
static char name[NAME + 1];
void harness_status(void) {
	int i, j, l, m, s = anyStatus(), at = -1;
	char *file = NULL;
	const char *message;
	l = (int)VERIF_SPLIT(verif_range(0, NAME + 1)) - 1;
	if (l >= 0) {
		file = (char*)malloc(l + 1);
		for (i = 0; i < l; i++) {
			file[i] = (char)verif_u8();
			VERIF_ASSUME(file[i] != 0);
		}
		file[l] = 0;
	}
	allocMayFail(FAULTS);
	message = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)s, file);
	if (message == NULL) {
		VERIF_ASSERT(allocFailed > 0, "there is a message unless it can't be allocated");
#if FAULTS > 0
		VERIF_WITNESS("failed");
#endif
	}
	else {
		m = (int)strlen(message);
		VERIF_ASSERT(m > 0, "the message is not empty");
		if (concernsFile(s) && allocFailed == 0) {
			const char *e = file == NULL ? "null" : file;
			int n = (int)strlen(e), found = 0;
			for (i = 0; i + n <= m; i++) {
				int same = 1;
				for (j = 0; j < n; j++) same &= message[i + j] == e[j];
				found |= same;
			}
			VERIF_ASSERT(found, "the message has the name of the file");
		}
		fiftyoneDegreesFree((void*)message);
		VERIF_WITNESS("message");
	}
	free(file);
}
/* File names as long as a byte, a path, and two bytes can count. */
void harness_long(void) {
	static const int lengths[] = { 120, 250, 4090, 32760, 65500 };
	int l = lengths[VERIF_SPLIT(verif_range(0, 4))] + (int)VERIF_SPLIT(verif_bool()) * 36;
	int s = withFile[VERIF_SPLIT(verif_range(0, (int)(sizeof(withFile) / sizeof(*withFile)) - 1))], at;
	char *file = (char*)malloc(l + 1), first = (char)verif_u8(), last = (char)verif_u8();
	const char *message, *in;
	VERIF_ASSUME(first != 0 && last != 0 && last != 'x');
	memset(file, 'x', l);
	file[0] = first;
	file[l - 1] = last;
	file[l] = 0;
	message = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)s, file);
	VERIF_ASSERT(message != NULL, "there is a message");
	in = strstr(message, "xxxxxx");
	VERIF_ASSERT(in != NULL && in > message, "the message has the name of the file");
	at = first == 'x' ? 0 : 1;
	VERIF_ASSERT(strlen(in) >= (size_t)(l - at), "all of the name");
	VERIF_ASSERT((at == 0 || in[-1] == first) && in[l - 2 - at] == 'x' && in[l - 1 - at] == last, "the message has all of the name of the file");
	VERIF_WITNESS_IF(l > 65530, "long");
	fiftyoneDegreesFree((void*)message);
	free(file);
}
void harness_distinct(void) {
	int a = anyStatus(), b = anyStatus();
	const char *x, *y;
	VERIF_ASSUME(a < b);
	x = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)a, "file");
	y = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)b, "file");
	VERIF_ASSERT(strcmp(x, y) != 0, "every status has its own message");
	fiftyoneDegreesFree((void*)x);
	fiftyoneDegreesFree((void*)y);
	VERIF_WITNESS("distinct");
}
static int contains(const char *m, const char *e) {
	return strstr(m, e) != NULL;
}
void harness_exception(void) {
	fiftyoneDegreesException value, *exception = &value;
	int s = anyStatus(), named, line;
	const char *message, *status;
	static const int lines[] = { -1, 0, 7, 99999, 2147483647, -2147483647 - 1 };
	EXCEPTION_CLEAR
	VERIF_ASSERT(EXCEPTION_OKAY && !EXCEPTION_FAILED, "an exception which was cleared is okay");
	EXCEPTION_SET((fiftyoneDegreesStatusCode)s)
	VERIF_ASSERT(exception->status == (fiftyoneDegreesStatusCode)s, "the status set is kept");
	VERIF_ASSERT(EXCEPTION_FAILED == (s != FIFTYONE_DEGREES_STATUS_NOT_SET) && EXCEPTION_OKAY == !EXCEPTION_FAILED, "an exception which was set has failed");
	VERIF_ASSERT(exception->file != NULL && exception->func != NULL && exception->line > 0, "where it was set is kept");
	named = (int)VERIF_SPLIT(verif_range(0, 3));
	exception->file = named & 1 ? "dir/f.c" : NULL;
	exception->func = named & 2 ? "fun" : NULL;
	line = lines[VERIF_SPLIT(verif_range(0, 5))];
	exception->line = line;
	status = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)s, NULL);
	allocMayFail(FAULTS);
	message = fiftyoneDegreesExceptionGetMessage(exception);
	VERIF_ASSERT(message != NULL || allocFailed > 0, "there is a message unless it can't be allocated");
	if (message != NULL) {
		int m = (int)strlen(message);
		char number[16];
		VERIF_ASSERT(allocFailed > 0 || contains(message, status), "the message has that of the status");
		if (named & 1) VERIF_ASSERT(contains(message, "dir/f.c"), "the message has the file");
		if (named & 2) VERIF_ASSERT(contains(message, "fun"), "the message has the function");
		sprintf(number, "%d\r\n", line);
		VERIF_ASSERT(contains(message, number), "the message has the line and isn't cut short");
		fiftyoneDegreesFree((void*)message);
		VERIF_WITNESS("message");
	}
	fiftyoneDegreesFree((void*)status);
	EXCEPTION_CLEAR
	VERIF_ASSERT(EXCEPTION_OKAY, "an exception which was cleared is okay");
	exception = NULL;
	VERIF_ASSERT(EXCEPTION_OKAY, "no exception is okay");
	EXCEPTION_SET(CORRUPT_DATA)
	VERIF_ASSERT(EXCEPTION_OKAY, "no exception is okay");
}
static int expectExit, exits;
void stub_exit(int s) {
	VERIF_ASSERT(expectExit == s, "only an exception that was set exits, with its status");
	VERIF_WITNESS("exit");
	VERIF_ASSUME(0);
	for (;;);
}
int stub_fputs(const char *s, FILE *f) { VERIF_ASSERT(s[0] != 0, "there is a message"); return 0; }
void harness_exit(void) {
	fiftyoneDegreesException value, *exception = &value;
	EXCEPTION_CLEAR
	expectExit = -100;
	fiftyoneDegreesExceptionCheckAndExit(exception);
	if (verif_bool()) {
		expectExit = (int)VERIF_SPLIT(verif_range(0, LAST));
		EXCEPTION_SET((fiftyoneDegreesStatusCode)expectExit)
		fiftyoneDegreesExceptionCheckAndExit(exception);
		VERIF_ASSERT(expectExit == FIFTYONE_DEGREES_STATUS_NOT_SET, "an exception that was set exits");
	}
	VERIF_WITNESS("okay");
}
