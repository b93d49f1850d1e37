/* Stand-in for libwdns (not installed here): the part of its API that dnstable uses or could reasonably use. */
#ifndef WDNS_H
#define WDNS_H
#include <stdint.h>
#include <stdio.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
#define WDNS_LEN_HEADER 12
#define WDNS_MAXLEN_NAME 255
#define WDNS_PRESLEN_NAME 1025
#define WDNS_PRESLEN_TYPE_A 16
#define WDNS_PRESLEN_TYPE_AAAA 46
#define WDNS_CLASS_IN 1
#define WDNS_CLASS_CH 3
#define WDNS_CLASS_HS 4
#define WDNS_CLASS_NONE 254
#define WDNS_CLASS_ANY 255
#define WDNS_TYPES(X) \
 X(A,1,"A") X(NS,2,"NS") X(MD,3,"MD") X(MF,4,"MF") X(CNAME,5,"CNAME") X(SOA,6,"SOA") X(MB,7,"MB") X(MG,8,"MG") X(MR,9,"MR") \
 X(NULL,10,"NULL") X(WKS,11,"WKS") X(PTR,12,"PTR") X(HINFO,13,"HINFO") X(MINFO,14,"MINFO") X(MX,15,"MX") X(TXT,16,"TXT") \
 X(RP,17,"RP") X(AFSDB,18,"AFSDB") X(X25,19,"X25") X(ISDN,20,"ISDN") X(RT,21,"RT") X(NSAP,22,"NSAP") X(NSAP_PTR,23,"NSAP-PTR") \
 X(SIG,24,"SIG") X(KEY,25,"KEY") X(PX,26,"PX") X(GPOS,27,"GPOS") X(AAAA,28,"AAAA") X(LOC,29,"LOC") X(NXT,30,"NXT") X(EID,31,"EID") \
 X(NIMLOC,32,"NIMLOC") X(SRV,33,"SRV") X(ATMA,34,"ATMA") X(NAPTR,35,"NAPTR") X(KX,36,"KX") X(CERT,37,"CERT") X(A6,38,"A6") \
 X(DNAME,39,"DNAME") X(SINK,40,"SINK") X(OPT,41,"OPT") X(APL,42,"APL") X(DS,43,"DS") X(SSHFP,44,"SSHFP") X(IPSECKEY,45,"IPSECKEY") \
 X(RRSIG,46,"RRSIG") X(NSEC,47,"NSEC") X(DNSKEY,48,"DNSKEY") X(DHCID,49,"DHCID") X(NSEC3,50,"NSEC3") X(NSEC3PARAM,51,"NSEC3PARAM") \
 X(TLSA,52,"TLSA") X(SMIMEA,53,"SMIMEA") X(HIP,55,"HIP") X(NINFO,56,"NINFO") X(RKEY,57,"RKEY") X(TALINK,58,"TALINK") X(CDS,59,"CDS") \
 X(CDNSKEY,60,"CDNSKEY") X(OPENPGPKEY,61,"OPENPGPKEY") X(CSYNC,62,"CSYNC") X(ZONEMD,63,"ZONEMD") X(SVCB,64,"SVCB") X(HTTPS,65,"HTTPS") \
 X(SPF,99,"SPF") X(UINFO,100,"UINFO") X(UID,101,"UID") X(GID,102,"GID") X(UNSPEC,103,"UNSPEC") X(NID,104,"NID") X(L32,105,"L32") \
 X(L64,106,"L64") X(LP,107,"LP") X(EUI48,108,"EUI48") X(EUI64,109,"EUI64") X(TKEY,249,"TKEY") X(TSIG,250,"TSIG") X(IXFR,251,"IXFR") \
 X(AXFR,252,"AXFR") X(MAILB,253,"MAILB") X(MAILA,254,"MAILA") X(ANY,255,"ANY") X(URI,256,"URI") X(CAA,257,"CAA") X(TA,32768,"TA") X(DLV,32769,"DLV")
enum {
#define X(n,v,s) WDNS_TYPE_##n = v,
WDNS_TYPES(X)
#undef X
};
typedef enum {
	wdns_res_success, wdns_res_failure, wdns_res_invalid_compression_pointer, wdns_res_invalid_length_octet, wdns_res_invalid_opcode,
	wdns_res_invalid_rcode, wdns_res_len, wdns_res_malloc, wdns_res_name_len, wdns_res_name_overflow, wdns_res_out_of_bounds,
	wdns_res_overflow, wdns_res_parse_error, wdns_res_qdcount, wdns_res_unknown_opcode, wdns_res_unknown_rcode
} wdns_res;
typedef struct { uint8_t len; uint8_t *data; } wdns_name_t;
typedef struct { uint16_t len; uint8_t data[]; } wdns_rdata_t;
const char *wdns_res_to_str(wdns_res);
const char *wdns_rrclass_to_str(uint16_t);
const char *wdns_rrtype_to_str(uint16_t);
uint16_t wdns_str_to_rrtype(const char *);
uint16_t wdns_str_to_rrclass(const char *);
size_t wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst);
char *wdns_rdata_to_str(const uint8_t *rdata, uint16_t rdlen, uint16_t rrtype, uint16_t rrclass);
wdns_res wdns_str_to_name(const char *str, wdns_name_t *name);
wdns_res wdns_str_to_name_case(const char *str, wdns_name_t *name);
wdns_res wdns_str_to_rdata(const char *str, uint16_t rrtype, uint16_t rrclass, uint8_t **rdata, size_t *rdlen);
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz);
wdns_res wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src, uint8_t *dst, size_t *sz);
wdns_res wdns_count_labels(wdns_name_t *name, size_t *nlabels);
wdns_res wdns_is_subdomain(wdns_name_t *n0, wdns_name_t *n1, bool *is_subdomain);
wdns_res wdns_left_chop(wdns_name_t *name, wdns_name_t *chop);
wdns_res wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name);
void wdns_downcase_name(wdns_name_t *name);
void wdns_clear_name(wdns_name_t *name);
#ifdef __cplusplus
}
#endif
#endif
