import { isTransactionSigner, AccountRole, upgradeRoleToSigner, fetchEncodedAccount, fetchEncodedAccounts, decodeAccount, assertAccountExists, assertAccountsExist } from './kit.mjs';
const addressOf = v => (typeof v === 'string' ? v : Array.isArray(v) ? v[0] : v.address);
export function getAccountMetaFactory(programAddress, optionalAccountStrategy) {
    return (inputName, account) => {
        if (!account.value) {
            if (optionalAccountStrategy === 'omitted') return;
            return Object.freeze({ address: programAddress, role: AccountRole.READONLY });
        }
        const role = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
        const signer = typeof account.value === 'object' && isTransactionSigner(account.value);
        return Object.freeze({ address: addressOf(account.value), role: signer ? upgradeRoleToSigner(role) : role, ...(signer ? { signer: account.value } : {}) });
    };
}
export function getAddressFromResolvedInstructionAccount(name, v) {
    if (v === null || v === undefined) throw new Error(`${name} must be non-null`);
    return addressOf(v);
}
export function getNonNullResolvedInstructionInput(name, v) {
    if (v === null || v === undefined) throw new Error(`${name} must be non-null`);
    return v;
}
export function addSelfFetchFunctions(client, codec) {
    const fetchMaybe = async (a, c) => decodeAccount(await fetchEncodedAccount(client.rpc, a, c), codec);
    const fetchAllMaybe = async (l, c) => (await fetchEncodedAccounts(client.rpc, l, c)).map(a => decodeAccount(a, codec));
    return Object.freeze({
        ...codec,
        fetchMaybe,
        fetchAllMaybe,
        fetch: async (a, c) => {
            const x = await fetchMaybe(a, c);
            assertAccountExists(x);
            return x;
        },
        fetchAll: async (l, c) => {
            const x = await fetchAllMaybe(l, c);
            assertAccountsExist(x);
            return x;
        },
    });
}
export function addSelfPlanAndSendFunctions(client, input) {
    return Object.freeze({ ...input, planTransaction: c => client.planTransaction?.(input, c), sendTransaction: c => client.sendTransaction?.(input, c) });
}
