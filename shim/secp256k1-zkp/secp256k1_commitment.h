#pragma once
#include <secp256k1-zkp/secp256k1.h>
