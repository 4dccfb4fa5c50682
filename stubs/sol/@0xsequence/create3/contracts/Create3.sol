// SPDX-License-Identifier: MIT
pragma solidity ^0.8.0;

// Stand-in for 0xsequence/create3 (not in the repository): one address per salt and deployer, usable once. The real one
// computes the address from the salt; here it is an entry of a table in the deployer's storage.
library Create3 {
  error ErrorCreatingContract();
  error TargetAlreadyExists();

  function slot(bytes32 _salt) private pure returns (bytes32) {
    return keccak256(abi.encode("create3", _salt));
  }

  function create3(bytes32 _salt, bytes memory _creationCode) internal returns (address addr) {
    if (addressOf(_salt) != address(0)) revert TargetAlreadyExists();
    assembly { addr := create(0, add(_creationCode, 32), mload(_creationCode)) }
    if (addr == address(0)) revert ErrorCreatingContract();
    bytes32 s = slot(_salt);
    assembly { sstore(s, addr) }
  }

  function addressOf(bytes32 _salt) internal view returns (address addr) {
    bytes32 s = slot(_salt);
    assembly { addr := sload(s) }
  }
}
