// The rest of libpq: not modelled.
extern void gs_unsupported(const char *);
void *PQbackendPID(void) { gs_unsupported("libpq: PQbackendPID"); return 0; }
void *PQcancel(void) { gs_unsupported("libpq: PQcancel"); return 0; }
void *PQconndefaults(void) { gs_unsupported("libpq: PQconndefaults"); return 0; }
void *PQconnectPoll(void) { gs_unsupported("libpq: PQconnectPoll"); return 0; }
void *PQconnectStart(void) { gs_unsupported("libpq: PQconnectStart"); return 0; }
void *PQconnectStartParams(void) { gs_unsupported("libpq: PQconnectStartParams"); return 0; }
void *PQconnectdbParams(void) { gs_unsupported("libpq: PQconnectdbParams"); return 0; }
void *PQconnectionNeedsPassword(void) { gs_unsupported("libpq: PQconnectionNeedsPassword"); return 0; }
void *PQconnectionUsedGSSAPI(void) { gs_unsupported("libpq: PQconnectionUsedGSSAPI"); return 0; }
void *PQconnectionUsedPassword(void) { gs_unsupported("libpq: PQconnectionUsedPassword"); return 0; }
void *PQconninfo(void) { gs_unsupported("libpq: PQconninfo"); return 0; }
void *PQconninfoFree(void) { gs_unsupported("libpq: PQconninfoFree"); return 0; }
void *PQconninfoParse(void) { gs_unsupported("libpq: PQconninfoParse"); return 0; }
void *PQconsumeInput(void) { gs_unsupported("libpq: PQconsumeInput"); return 0; }
void *PQcopyResult(void) { gs_unsupported("libpq: PQcopyResult"); return 0; }
void *PQdb(void) { gs_unsupported("libpq: PQdb"); return 0; }
void *PQdefaultSSLKeyPassHook_OpenSSL(void) { gs_unsupported("libpq: PQdefaultSSLKeyPassHook_OpenSSL"); return 0; }
void *PQdescribePortal(void) { gs_unsupported("libpq: PQdescribePortal"); return 0; }
void *PQdescribePrepared(void) { gs_unsupported("libpq: PQdescribePrepared"); return 0; }
void *PQdisplayTuples(void) { gs_unsupported("libpq: PQdisplayTuples"); return 0; }
void *PQdsplen(void) { gs_unsupported("libpq: PQdsplen"); return 0; }
void *PQencryptPassword(void) { gs_unsupported("libpq: PQencryptPassword"); return 0; }
void *PQencryptPasswordConn(void) { gs_unsupported("libpq: PQencryptPasswordConn"); return 0; }
void *PQendcopy(void) { gs_unsupported("libpq: PQendcopy"); return 0; }
void *PQenterPipelineMode(void) { gs_unsupported("libpq: PQenterPipelineMode"); return 0; }
void *PQenv2encoding(void) { gs_unsupported("libpq: PQenv2encoding"); return 0; }
void *PQescapeBytea(void) { gs_unsupported("libpq: PQescapeBytea"); return 0; }
void *PQexitPipelineMode(void) { gs_unsupported("libpq: PQexitPipelineMode"); return 0; }
void *PQfireResultCreateEvents(void) { gs_unsupported("libpq: PQfireResultCreateEvents"); return 0; }
void *PQflush(void) { gs_unsupported("libpq: PQflush"); return 0; }
void *PQfmod(void) { gs_unsupported("libpq: PQfmod"); return 0; }
void *PQfn(void) { gs_unsupported("libpq: PQfn"); return 0; }
void *PQfreeCancel(void) { gs_unsupported("libpq: PQfreeCancel"); return 0; }
void *PQfreeNotify(void) { gs_unsupported("libpq: PQfreeNotify"); return 0; }
void *PQfsize(void) { gs_unsupported("libpq: PQfsize"); return 0; }
void *PQftable(void) { gs_unsupported("libpq: PQftable"); return 0; }
void *PQftablecol(void) { gs_unsupported("libpq: PQftablecol"); return 0; }
void *PQftype(void) { gs_unsupported("libpq: PQftype"); return 0; }
void *PQgetCancel(void) { gs_unsupported("libpq: PQgetCancel"); return 0; }
void *PQgetCopyData(void) { gs_unsupported("libpq: PQgetCopyData"); return 0; }
void *PQgetResult(void) { gs_unsupported("libpq: PQgetResult"); return 0; }
void *PQgetSSLKeyPassHook_OpenSSL(void) { gs_unsupported("libpq: PQgetSSLKeyPassHook_OpenSSL"); return 0; }
void *PQgetgssctx(void) { gs_unsupported("libpq: PQgetgssctx"); return 0; }
void *PQgetline(void) { gs_unsupported("libpq: PQgetline"); return 0; }
void *PQgetlineAsync(void) { gs_unsupported("libpq: PQgetlineAsync"); return 0; }
void *PQgetssl(void) { gs_unsupported("libpq: PQgetssl"); return 0; }
void *PQgssEncInUse(void) { gs_unsupported("libpq: PQgssEncInUse"); return 0; }
void *PQhost(void) { gs_unsupported("libpq: PQhost"); return 0; }
void *PQhostaddr(void) { gs_unsupported("libpq: PQhostaddr"); return 0; }
void *PQinitOpenSSL(void) { gs_unsupported("libpq: PQinitOpenSSL"); return 0; }
void *PQinitSSL(void) { gs_unsupported("libpq: PQinitSSL"); return 0; }
void *PQinstanceData(void) { gs_unsupported("libpq: PQinstanceData"); return 0; }
void *PQisBusy(void) { gs_unsupported("libpq: PQisBusy"); return 0; }
void *PQisnonblocking(void) { gs_unsupported("libpq: PQisnonblocking"); return 0; }
void *PQmakeEmptyPGresult(void) { gs_unsupported("libpq: PQmakeEmptyPGresult"); return 0; }
void *PQmblen(void) { gs_unsupported("libpq: PQmblen"); return 0; }
void *PQmblenBounded(void) { gs_unsupported("libpq: PQmblenBounded"); return 0; }
void *PQnotifies(void) { gs_unsupported("libpq: PQnotifies"); return 0; }
void *PQnparams(void) { gs_unsupported("libpq: PQnparams"); return 0; }
void *PQoidStatus(void) { gs_unsupported("libpq: PQoidStatus"); return 0; }
void *PQoidValue(void) { gs_unsupported("libpq: PQoidValue"); return 0; }
void *PQoptions(void) { gs_unsupported("libpq: PQoptions"); return 0; }
void *PQparamtype(void) { gs_unsupported("libpq: PQparamtype"); return 0; }
void *PQpass(void) { gs_unsupported("libpq: PQpass"); return 0; }
void *PQping(void) { gs_unsupported("libpq: PQping"); return 0; }
void *PQpingParams(void) { gs_unsupported("libpq: PQpingParams"); return 0; }
void *PQpipelineStatus(void) { gs_unsupported("libpq: PQpipelineStatus"); return 0; }
void *PQpipelineSync(void) { gs_unsupported("libpq: PQpipelineSync"); return 0; }
void *PQport(void) { gs_unsupported("libpq: PQport"); return 0; }
void *PQprint(void) { gs_unsupported("libpq: PQprint"); return 0; }
void *PQprintTuples(void) { gs_unsupported("libpq: PQprintTuples"); return 0; }
void *PQputCopyData(void) { gs_unsupported("libpq: PQputCopyData"); return 0; }
void *PQputCopyEnd(void) { gs_unsupported("libpq: PQputCopyEnd"); return 0; }
void *PQputline(void) { gs_unsupported("libpq: PQputline"); return 0; }
void *PQputnbytes(void) { gs_unsupported("libpq: PQputnbytes"); return 0; }
void *PQregisterEventProc(void) { gs_unsupported("libpq: PQregisterEventProc"); return 0; }
void *PQregisterThreadLock(void) { gs_unsupported("libpq: PQregisterThreadLock"); return 0; }
void *PQrequestCancel(void) { gs_unsupported("libpq: PQrequestCancel"); return 0; }
void *PQreset(void) { gs_unsupported("libpq: PQreset"); return 0; }
void *PQresetPoll(void) { gs_unsupported("libpq: PQresetPoll"); return 0; }
void *PQresetStart(void) { gs_unsupported("libpq: PQresetStart"); return 0; }
void *PQresultAlloc(void) { gs_unsupported("libpq: PQresultAlloc"); return 0; }
void *PQresultInstanceData(void) { gs_unsupported("libpq: PQresultInstanceData"); return 0; }
void *PQresultMemorySize(void) { gs_unsupported("libpq: PQresultMemorySize"); return 0; }
void *PQresultSetInstanceData(void) { gs_unsupported("libpq: PQresultSetInstanceData"); return 0; }
void *PQsendDescribePortal(void) { gs_unsupported("libpq: PQsendDescribePortal"); return 0; }
void *PQsendDescribePrepared(void) { gs_unsupported("libpq: PQsendDescribePrepared"); return 0; }
void *PQsendFlushRequest(void) { gs_unsupported("libpq: PQsendFlushRequest"); return 0; }
void *PQsendPrepare(void) { gs_unsupported("libpq: PQsendPrepare"); return 0; }
void *PQsendQuery(void) { gs_unsupported("libpq: PQsendQuery"); return 0; }
void *PQsendQueryParams(void) { gs_unsupported("libpq: PQsendQueryParams"); return 0; }
void *PQsendQueryPrepared(void) { gs_unsupported("libpq: PQsendQueryPrepared"); return 0; }
void *PQsetErrorContextVisibility(void) { gs_unsupported("libpq: PQsetErrorContextVisibility"); return 0; }
void *PQsetInstanceData(void) { gs_unsupported("libpq: PQsetInstanceData"); return 0; }
void *PQsetResultAttrs(void) { gs_unsupported("libpq: PQsetResultAttrs"); return 0; }
void *PQsetSSLKeyPassHook_OpenSSL(void) { gs_unsupported("libpq: PQsetSSLKeyPassHook_OpenSSL"); return 0; }
void *PQsetSingleRowMode(void) { gs_unsupported("libpq: PQsetSingleRowMode"); return 0; }
void *PQsetTraceFlags(void) { gs_unsupported("libpq: PQsetTraceFlags"); return 0; }
void *PQsetdbLogin(void) { gs_unsupported("libpq: PQsetdbLogin"); return 0; }
void *PQsetnonblocking(void) { gs_unsupported("libpq: PQsetnonblocking"); return 0; }
void *PQsetvalue(void) { gs_unsupported("libpq: PQsetvalue"); return 0; }
void *PQsocket(void) { gs_unsupported("libpq: PQsocket"); return 0; }
void *PQsslAttribute(void) { gs_unsupported("libpq: PQsslAttribute"); return 0; }
void *PQsslAttributeNames(void) { gs_unsupported("libpq: PQsslAttributeNames"); return 0; }
void *PQsslInUse(void) { gs_unsupported("libpq: PQsslInUse"); return 0; }
void *PQsslStruct(void) { gs_unsupported("libpq: PQsslStruct"); return 0; }
void *PQtrace(void) { gs_unsupported("libpq: PQtrace"); return 0; }
void *PQtty(void) { gs_unsupported("libpq: PQtty"); return 0; }
void *PQuntrace(void) { gs_unsupported("libpq: PQuntrace"); return 0; }
void *PQuser(void) { gs_unsupported("libpq: PQuser"); return 0; }
void *lo_close(void) { gs_unsupported("libpq: lo_close"); return 0; }
void *lo_creat(void) { gs_unsupported("libpq: lo_creat"); return 0; }
void *lo_create(void) { gs_unsupported("libpq: lo_create"); return 0; }
void *lo_export(void) { gs_unsupported("libpq: lo_export"); return 0; }
void *lo_import(void) { gs_unsupported("libpq: lo_import"); return 0; }
void *lo_import_with_oid(void) { gs_unsupported("libpq: lo_import_with_oid"); return 0; }
void *lo_lseek(void) { gs_unsupported("libpq: lo_lseek"); return 0; }
void *lo_lseek64(void) { gs_unsupported("libpq: lo_lseek64"); return 0; }
void *lo_open(void) { gs_unsupported("libpq: lo_open"); return 0; }
void *lo_read(void) { gs_unsupported("libpq: lo_read"); return 0; }
void *lo_tell(void) { gs_unsupported("libpq: lo_tell"); return 0; }
void *lo_tell64(void) { gs_unsupported("libpq: lo_tell64"); return 0; }
void *lo_truncate(void) { gs_unsupported("libpq: lo_truncate"); return 0; }
void *lo_truncate64(void) { gs_unsupported("libpq: lo_truncate64"); return 0; }
void *lo_unlink(void) { gs_unsupported("libpq: lo_unlink"); return 0; }
void *lo_write(void) { gs_unsupported("libpq: lo_write"); return 0; }
