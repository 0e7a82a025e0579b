export const SYSVAR_RENT_ADDRESS = 'SysvarRent111111111111111111111111111111111';
export const SYSVAR_CLOCK_ADDRESS = 'SysvarC1ock11111111111111111111111111111111';
