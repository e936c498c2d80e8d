// Stand-in for the cryptodev-linux header (compression branch): what src/cryptodev/842_interface.c needs of it.
#ifndef VERIF_FAKE_CRYPTODEV_H
#define VERIF_FAKE_CRYPTODEV_H
#include <stdint.h>
#include <sys/ioctl.h>
#include <linux/types.h>
#define CRYPTO_842 70
#define COP_ENCRYPT 0
#define COP_DECRYPT 1
#define CRYPTODEV_COMP_MAX_CHUNKS 48
struct session_op {
	__u32 cipher, mac, compr;
	__u32 keylen; __u8 *key;
	__u32 mackeylen; __u8 *mackey;
	__u32 ses;
};
struct crypt_op {
	__u32 ses;
	__u16 op, flags;
	__u32 len, dlen;
	__u8 *src, *dst, *mac, *iv;
	__u32 numchunks;
	__u32 *chunklens, *chunkdlens;
	int *chunkrets;
};
struct alg_info { char cra_name[64], cra_driver_name[64]; };
struct session_info_op {
	__u32 ses;
	struct alg_info cipher_info, hash_info, compr_info;
	__u16 alignmask;
	__u32 flags;
};
#define SIOP_FLAG_KERNEL_DRIVER_ONLY 1
#define CIOCGSESSION _IOWR('c', 102, struct session_op)
#define CIOCFSESSION _IOW('c', 103, __u32)
#define CIOCCRYPT _IOWR('c', 104, struct crypt_op)
#ifndef VERIF_NO_SESSINFO
#define CIOCGSESSINFO _IOWR('c', 107, struct session_info_op)
#endif
#endif
