// SPDX-License-Identifier: MIT
pragma solidity ^0.8.0;

import "sstore2/SSTORE2.sol";
import "sstore2/SSTORE2Map.sol";

// Gives the libraries' functions an ABI. The memory they work in is not clean.
contract StoreProbe {
  function dirt() private pure {
    assembly {
      let p := mload(0x40)
      for { let i := 0 } lt(i, 30000) { i := add(i, 32) } { mstore(add(p, i), not(0)) }
    }
  }

  function write(bytes memory d) external returns (address) {
    dirt();
    return SSTORE2.write(d);
  }

  function read1(address p) external view returns (bytes memory) {
    dirt();
    return SSTORE2.read(p);
  }

  function read2(address p, uint256 a) external view returns (bytes memory) {
    dirt();
    return SSTORE2.read(p, a);
  }

  function read3(address p, uint256 a, uint256 b) external view returns (bytes memory) {
    dirt();
    return SSTORE2.read(p, a, b);
  }

  function both(address p, address q) external view returns (bytes memory, bytes memory) {
    dirt();
    bytes memory x = SSTORE2.read(p);
    bytes memory y = SSTORE2.read(q);
    return (x, y);
  }

  function mwrite(bytes32 k, bytes memory d) external returns (address) {
    return SSTORE2Map.write(k, d);
  }

  function swrite(string memory k, bytes memory d) external returns (address) {
    return SSTORE2Map.write(k, d);
  }

  function mread1(bytes32 k) external view returns (bytes memory) {
    return SSTORE2Map.read(k);
  }

  function mread2(bytes32 k, uint256 a) external view returns (bytes memory) {
    return SSTORE2Map.read(k, a);
  }

  function mread3(bytes32 k, uint256 a, uint256 b) external view returns (bytes memory) {
    return SSTORE2Map.read(k, a, b);
  }

  function sread1(string memory k) external view returns (bytes memory) {
    return SSTORE2Map.read(k);
  }

  function sread2(string memory k, uint256 a) external view returns (bytes memory) {
    return SSTORE2Map.read(k, a);
  }

  function sread3(string memory k, uint256 a, uint256 b) external view returns (bytes memory) {
    return SSTORE2Map.read(k, a, b);
  }
}
