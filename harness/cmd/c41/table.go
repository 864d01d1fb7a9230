// Code generated by tools/gen_bindings_table.py. DO NOT EDIT.
package main

import (
	"github.com/brevis-network/zk-utils/common/bsc"
	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
)

var table = []entry{
	{"eth.Address", eth.AddressMetaData, &eth.AddressABI, eth.NewAddress, eth.NewAddressCaller, eth.NewAddressTransactor, eth.NewAddressFilterer, eth.DeployAddress,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Address)
			return []any{&eth.AddressSession{v, c, t}, &eth.AddressCallerSession{&v.AddressCaller, c}, &eth.AddressTransactorSession{&v.AddressTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Address)
			return []any{&eth.AddressRaw{v}, &eth.AddressCallerRaw{&v.AddressCaller}, &eth.AddressTransactorRaw{&v.AddressTransactor}}
		}},
	{"eth.AnchorBlocks", eth.AnchorBlocksMetaData, &eth.AnchorBlocksABI, eth.NewAnchorBlocks, eth.NewAnchorBlocksCaller, eth.NewAnchorBlocksTransactor, eth.NewAnchorBlocksFilterer, eth.DeployAnchorBlocks,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.AnchorBlocks)
			return []any{&eth.AnchorBlocksSession{v, c, t}, &eth.AnchorBlocksCallerSession{&v.AnchorBlocksCaller, c}, &eth.AnchorBlocksTransactorSession{&v.AnchorBlocksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.AnchorBlocks)
			return []any{&eth.AnchorBlocksRaw{v}, &eth.AnchorBlocksCallerRaw{&v.AnchorBlocksCaller}, &eth.AnchorBlocksTransactorRaw{&v.AnchorBlocksTransactor}}
		}},
	{"eth.BalanceDeltaLibrary", eth.BalanceDeltaLibraryMetaData, &eth.BalanceDeltaLibraryABI, eth.NewBalanceDeltaLibrary, eth.NewBalanceDeltaLibraryCaller, eth.NewBalanceDeltaLibraryTransactor, eth.NewBalanceDeltaLibraryFilterer, eth.DeployBalanceDeltaLibrary,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BalanceDeltaLibrary)
			return []any{&eth.BalanceDeltaLibrarySession{v, c, t}, &eth.BalanceDeltaLibraryCallerSession{&v.BalanceDeltaLibraryCaller, c}, &eth.BalanceDeltaLibraryTransactorSession{&v.BalanceDeltaLibraryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BalanceDeltaLibrary)
			return []any{&eth.BalanceDeltaLibraryRaw{v}, &eth.BalanceDeltaLibraryCallerRaw{&v.BalanceDeltaLibraryCaller}, &eth.BalanceDeltaLibraryTransactorRaw{&v.BalanceDeltaLibraryTransactor}}
		}},
	{"eth.BaseFactory", eth.BaseFactoryMetaData, &eth.BaseFactoryABI, eth.NewBaseFactory, eth.NewBaseFactoryCaller, eth.NewBaseFactoryTransactor, eth.NewBaseFactoryFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BaseFactory)
			return []any{&eth.BaseFactorySession{v, c, t}, &eth.BaseFactoryCallerSession{&v.BaseFactoryCaller, c}, &eth.BaseFactoryTransactorSession{&v.BaseFactoryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BaseFactory)
			return []any{&eth.BaseFactoryRaw{v}, &eth.BaseFactoryCallerRaw{&v.BaseFactoryCaller}, &eth.BaseFactoryTransactorRaw{&v.BaseFactoryTransactor}}
		}},
	{"eth.BaseHook", eth.BaseHookMetaData, &eth.BaseHookABI, eth.NewBaseHook, eth.NewBaseHookCaller, eth.NewBaseHookTransactor, eth.NewBaseHookFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BaseHook)
			return []any{&eth.BaseHookSession{v, c, t}, &eth.BaseHookCallerSession{&v.BaseHookCaller, c}, &eth.BaseHookTransactorSession{&v.BaseHookTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BaseHook)
			return []any{&eth.BaseHookRaw{v}, &eth.BaseHookCallerRaw{&v.BaseHookCaller}, &eth.BaseHookTransactorRaw{&v.BaseHookTransactor}}
		}},
	{"eth.BeaconVerifier", eth.BeaconVerifierMetaData, &eth.BeaconVerifierABI, eth.NewBeaconVerifier, eth.NewBeaconVerifierCaller, eth.NewBeaconVerifierTransactor, eth.NewBeaconVerifierFilterer, eth.DeployBeaconVerifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BeaconVerifier)
			return []any{&eth.BeaconVerifierSession{v, c, t}, &eth.BeaconVerifierCallerSession{&v.BeaconVerifierCaller, c}, &eth.BeaconVerifierTransactorSession{&v.BeaconVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BeaconVerifier)
			return []any{&eth.BeaconVerifierRaw{v}, &eth.BeaconVerifierCallerRaw{&v.BeaconVerifierCaller}, &eth.BeaconVerifierTransactorRaw{&v.BeaconVerifierTransactor}}
		}},
	{"eth.BitMath", eth.BitMathMetaData, &eth.BitMathABI, eth.NewBitMath, eth.NewBitMathCaller, eth.NewBitMathTransactor, eth.NewBitMathFilterer, eth.DeployBitMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BitMath)
			return []any{&eth.BitMathSession{v, c, t}, &eth.BitMathCallerSession{&v.BitMathCaller, c}, &eth.BitMathTransactorSession{&v.BitMathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BitMath)
			return []any{&eth.BitMathRaw{v}, &eth.BitMathCallerRaw{&v.BitMathCaller}, &eth.BitMathTransactorRaw{&v.BitMathTransactor}}
		}},
	{"eth.BlockChunks", eth.BlockChunksMetaData, &eth.BlockChunksABI, eth.NewBlockChunks, eth.NewBlockChunksCaller, eth.NewBlockChunksTransactor, eth.NewBlockChunksFilterer, eth.DeployBlockChunks,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BlockChunks)
			return []any{&eth.BlockChunksSession{v, c, t}, &eth.BlockChunksCallerSession{&v.BlockChunksCaller, c}, &eth.BlockChunksTransactorSession{&v.BlockChunksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BlockChunks)
			return []any{&eth.BlockChunksRaw{v}, &eth.BlockChunksCallerRaw{&v.BlockChunksCaller}, &eth.BlockChunksTransactorRaw{&v.BlockChunksTransactor}}
		}},
	{"eth.BlsSigVerifier", eth.BlsSigVerifierMetaData, &eth.BlsSigVerifierABI, eth.NewBlsSigVerifier, eth.NewBlsSigVerifierCaller, eth.NewBlsSigVerifierTransactor, eth.NewBlsSigVerifierFilterer, eth.DeployBlsSigVerifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BlsSigVerifier)
			return []any{&eth.BlsSigVerifierSession{v, c, t}, &eth.BlsSigVerifierCallerSession{&v.BlsSigVerifierCaller, c}, &eth.BlsSigVerifierTransactorSession{&v.BlsSigVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BlsSigVerifier)
			return []any{&eth.BlsSigVerifierRaw{v}, &eth.BlsSigVerifierCallerRaw{&v.BlsSigVerifierCaller}, &eth.BlsSigVerifierTransactorRaw{&v.BlsSigVerifierTransactor}}
		}},
	{"eth.Brevis", eth.BrevisMetaData, &eth.BrevisABI, eth.NewBrevis, eth.NewBrevisCaller, eth.NewBrevisTransactor, eth.NewBrevisFilterer, eth.DeployBrevis,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Brevis)
			return []any{&eth.BrevisSession{v, c, t}, &eth.BrevisCallerSession{&v.BrevisCaller, c}, &eth.BrevisTransactorSession{&v.BrevisTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Brevis)
			return []any{&eth.BrevisRaw{v}, &eth.BrevisCallerRaw{&v.BrevisCaller}, &eth.BrevisTransactorRaw{&v.BrevisTransactor}}
		}},
	{"eth.BrevisAccess", eth.BrevisAccessMetaData, &eth.BrevisAccessABI, eth.NewBrevisAccess, eth.NewBrevisAccessCaller, eth.NewBrevisAccessTransactor, eth.NewBrevisAccessFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisAccess)
			return []any{&eth.BrevisAccessSession{v, c, t}, &eth.BrevisAccessCallerSession{&v.BrevisAccessCaller, c}, &eth.BrevisAccessTransactorSession{&v.BrevisAccessTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisAccess)
			return []any{&eth.BrevisAccessRaw{v}, &eth.BrevisAccessCallerRaw{&v.BrevisAccessCaller}, &eth.BrevisAccessTransactorRaw{&v.BrevisAccessTransactor}}
		}},
	{"eth.BrevisAggProof", eth.BrevisAggProofMetaData, &eth.BrevisAggProofABI, eth.NewBrevisAggProof, eth.NewBrevisAggProofCaller, eth.NewBrevisAggProofTransactor, eth.NewBrevisAggProofFilterer, eth.DeployBrevisAggProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisAggProof)
			return []any{&eth.BrevisAggProofSession{v, c, t}, &eth.BrevisAggProofCallerSession{&v.BrevisAggProofCaller, c}, &eth.BrevisAggProofTransactorSession{&v.BrevisAggProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisAggProof)
			return []any{&eth.BrevisAggProofRaw{v}, &eth.BrevisAggProofCallerRaw{&v.BrevisAggProofCaller}, &eth.BrevisAggProofTransactorRaw{&v.BrevisAggProofTransactor}}
		}},
	{"eth.BrevisApp", eth.BrevisAppMetaData, &eth.BrevisAppABI, eth.NewBrevisApp, eth.NewBrevisAppCaller, eth.NewBrevisAppTransactor, eth.NewBrevisAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisApp)
			return []any{&eth.BrevisAppSession{v, c, t}, &eth.BrevisAppCallerSession{&v.BrevisAppCaller, c}, &eth.BrevisAppTransactorSession{&v.BrevisAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisApp)
			return []any{&eth.BrevisAppRaw{v}, &eth.BrevisAppCallerRaw{&v.BrevisAppCaller}, &eth.BrevisAppTransactorRaw{&v.BrevisAppTransactor}}
		}},
	{"eth.BrevisDispute", eth.BrevisDisputeMetaData, &eth.BrevisDisputeABI, eth.NewBrevisDispute, eth.NewBrevisDisputeCaller, eth.NewBrevisDisputeTransactor, eth.NewBrevisDisputeFilterer, eth.DeployBrevisDispute,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisDispute)
			return []any{&eth.BrevisDisputeSession{v, c, t}, &eth.BrevisDisputeCallerSession{&v.BrevisDisputeCaller, c}, &eth.BrevisDisputeTransactorSession{&v.BrevisDisputeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisDispute)
			return []any{&eth.BrevisDisputeRaw{v}, &eth.BrevisDisputeCallerRaw{&v.BrevisDisputeCaller}, &eth.BrevisDisputeTransactorRaw{&v.BrevisDisputeTransactor}}
		}},
	{"eth.BrevisProof", eth.BrevisProofMetaData, &eth.BrevisProofABI, eth.NewBrevisProof, eth.NewBrevisProofCaller, eth.NewBrevisProofTransactor, eth.NewBrevisProofFilterer, eth.DeployBrevisProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisProof)
			return []any{&eth.BrevisProofSession{v, c, t}, &eth.BrevisProofCallerSession{&v.BrevisProofCaller, c}, &eth.BrevisProofTransactorSession{&v.BrevisProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisProof)
			return []any{&eth.BrevisProofRaw{v}, &eth.BrevisProofCallerRaw{&v.BrevisProofCaller}, &eth.BrevisProofTransactorRaw{&v.BrevisProofTransactor}}
		}},
	{"eth.BrevisRequest", eth.BrevisRequestMetaData, &eth.BrevisRequestABI, eth.NewBrevisRequest, eth.NewBrevisRequestCaller, eth.NewBrevisRequestTransactor, eth.NewBrevisRequestFilterer, eth.DeployBrevisRequest,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisRequest)
			return []any{&eth.BrevisRequestSession{v, c, t}, &eth.BrevisRequestCallerSession{&v.BrevisRequestCaller, c}, &eth.BrevisRequestTransactorSession{&v.BrevisRequestTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisRequest)
			return []any{&eth.BrevisRequestRaw{v}, &eth.BrevisRequestCallerRaw{&v.BrevisRequestCaller}, &eth.BrevisRequestTransactorRaw{&v.BrevisRequestTransactor}}
		}},
	{"eth.BrevisZkApp", eth.BrevisZkAppMetaData, &eth.BrevisZkAppABI, eth.NewBrevisZkApp, eth.NewBrevisZkAppCaller, eth.NewBrevisZkAppTransactor, eth.NewBrevisZkAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.BrevisZkApp)
			return []any{&eth.BrevisZkAppSession{v, c, t}, &eth.BrevisZkAppCallerSession{&v.BrevisZkAppCaller, c}, &eth.BrevisZkAppTransactorSession{&v.BrevisZkAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.BrevisZkApp)
			return []any{&eth.BrevisZkAppRaw{v}, &eth.BrevisZkAppCallerRaw{&v.BrevisZkAppCaller}, &eth.BrevisZkAppTransactorRaw{&v.BrevisZkAppTransactor}}
		}},
	{"eth.CommitteeRootMappingVerifier", eth.CommitteeRootMappingVerifierMetaData, &eth.CommitteeRootMappingVerifierABI, eth.NewCommitteeRootMappingVerifier, eth.NewCommitteeRootMappingVerifierCaller, eth.NewCommitteeRootMappingVerifierTransactor, eth.NewCommitteeRootMappingVerifierFilterer, eth.DeployCommitteeRootMappingVerifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.CommitteeRootMappingVerifier)
			return []any{&eth.CommitteeRootMappingVerifierSession{v, c, t}, &eth.CommitteeRootMappingVerifierCallerSession{&v.CommitteeRootMappingVerifierCaller, c}, &eth.CommitteeRootMappingVerifierTransactorSession{&v.CommitteeRootMappingVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.CommitteeRootMappingVerifier)
			return []any{&eth.CommitteeRootMappingVerifierRaw{v}, &eth.CommitteeRootMappingVerifierCallerRaw{&v.CommitteeRootMappingVerifierCaller}, &eth.CommitteeRootMappingVerifierTransactorRaw{&v.CommitteeRootMappingVerifierTransactor}}
		}},
	{"eth.Common", eth.CommonMetaData, &eth.CommonABI, eth.NewCommon, eth.NewCommonCaller, eth.NewCommonTransactor, eth.NewCommonFilterer, eth.DeployCommon,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Common)
			return []any{&eth.CommonSession{v, c, t}, &eth.CommonCallerSession{&v.CommonCaller, c}, &eth.CommonTransactorSession{&v.CommonTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Common)
			return []any{&eth.CommonRaw{v}, &eth.CommonCallerRaw{&v.CommonCaller}, &eth.CommonTransactorRaw{&v.CommonTransactor}}
		}},
	{"eth.Context", eth.ContextMetaData, &eth.ContextABI, eth.NewContext, eth.NewContextCaller, eth.NewContextTransactor, eth.NewContextFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Context)
			return []any{&eth.ContextSession{v, c, t}, &eth.ContextCallerSession{&v.ContextCaller, c}, &eth.ContextTransactorSession{&v.ContextTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Context)
			return []any{&eth.ContextRaw{v}, &eth.ContextCallerRaw{&v.ContextCaller}, &eth.ContextTransactorRaw{&v.ContextTransactor}}
		}},
	{"eth.CurrencyLibrary", eth.CurrencyLibraryMetaData, &eth.CurrencyLibraryABI, eth.NewCurrencyLibrary, eth.NewCurrencyLibraryCaller, eth.NewCurrencyLibraryTransactor, eth.NewCurrencyLibraryFilterer, eth.DeployCurrencyLibrary,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.CurrencyLibrary)
			return []any{&eth.CurrencyLibrarySession{v, c, t}, &eth.CurrencyLibraryCallerSession{&v.CurrencyLibraryCaller, c}, &eth.CurrencyLibraryTransactorSession{&v.CurrencyLibraryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.CurrencyLibrary)
			return []any{&eth.CurrencyLibraryRaw{v}, &eth.CurrencyLibraryCallerRaw{&v.CurrencyLibraryCaller}, &eth.CurrencyLibraryTransactorRaw{&v.CurrencyLibraryTransactor}}
		}},
	{"eth.ERC20", eth.ERC20MetaData, &eth.ERC20ABI, eth.NewERC20, eth.NewERC20Caller, eth.NewERC20Transactor, eth.NewERC20Filterer, eth.DeployERC20,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ERC20)
			return []any{&eth.ERC20Session{v, c, t}, &eth.ERC20CallerSession{&v.ERC20Caller, c}, &eth.ERC20TransactorSession{&v.ERC20Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ERC20)
			return []any{&eth.ERC20Raw{v}, &eth.ERC20CallerRaw{&v.ERC20Caller}, &eth.ERC20TransactorRaw{&v.ERC20Transactor}}
		}},
	{"eth.ERC20Burnable", eth.ERC20BurnableMetaData, &eth.ERC20BurnableABI, eth.NewERC20Burnable, eth.NewERC20BurnableCaller, eth.NewERC20BurnableTransactor, eth.NewERC20BurnableFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ERC20Burnable)
			return []any{&eth.ERC20BurnableSession{v, c, t}, &eth.ERC20BurnableCallerSession{&v.ERC20BurnableCaller, c}, &eth.ERC20BurnableTransactorSession{&v.ERC20BurnableTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ERC20Burnable)
			return []any{&eth.ERC20BurnableRaw{v}, &eth.ERC20BurnableCallerRaw{&v.ERC20BurnableCaller}, &eth.ERC20BurnableTransactorRaw{&v.ERC20BurnableTransactor}}
		}},
	{"eth.EthereumLightClient", eth.EthereumLightClientMetaData, &eth.EthereumLightClientABI, eth.NewEthereumLightClient, eth.NewEthereumLightClientCaller, eth.NewEthereumLightClientTransactor, eth.NewEthereumLightClientFilterer, eth.DeployEthereumLightClient,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.EthereumLightClient)
			return []any{&eth.EthereumLightClientSession{v, c, t}, &eth.EthereumLightClientCallerSession{&v.EthereumLightClientCaller, c}, &eth.EthereumLightClientTransactorSession{&v.EthereumLightClientTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.EthereumLightClient)
			return []any{&eth.EthereumLightClientRaw{v}, &eth.EthereumLightClientCallerRaw{&v.EthereumLightClientCaller}, &eth.EthereumLightClientTransactorRaw{&v.EthereumLightClientTransactor}}
		}},
	{"eth.FeeLibrary", eth.FeeLibraryMetaData, &eth.FeeLibraryABI, eth.NewFeeLibrary, eth.NewFeeLibraryCaller, eth.NewFeeLibraryTransactor, eth.NewFeeLibraryFilterer, eth.DeployFeeLibrary,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.FeeLibrary)
			return []any{&eth.FeeLibrarySession{v, c, t}, &eth.FeeLibraryCallerSession{&v.FeeLibraryCaller, c}, &eth.FeeLibraryTransactorSession{&v.FeeLibraryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.FeeLibrary)
			return []any{&eth.FeeLibraryRaw{v}, &eth.FeeLibraryCallerRaw{&v.FeeLibraryCaller}, &eth.FeeLibraryTransactorRaw{&v.FeeLibraryTransactor}}
		}},
	{"eth.FeeVault", eth.FeeVaultMetaData, &eth.FeeVaultABI, eth.NewFeeVault, eth.NewFeeVaultCaller, eth.NewFeeVaultTransactor, eth.NewFeeVaultFilterer, eth.DeployFeeVault,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.FeeVault)
			return []any{&eth.FeeVaultSession{v, c, t}, &eth.FeeVaultCallerSession{&v.FeeVaultCaller, c}, &eth.FeeVaultTransactorSession{&v.FeeVaultTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.FeeVault)
			return []any{&eth.FeeVaultRaw{v}, &eth.FeeVaultCallerRaw{&v.FeeVaultCaller}, &eth.FeeVaultTransactorRaw{&v.FeeVaultTransactor}}
		}},
	{"eth.FixedPoint128", eth.FixedPoint128MetaData, &eth.FixedPoint128ABI, eth.NewFixedPoint128, eth.NewFixedPoint128Caller, eth.NewFixedPoint128Transactor, eth.NewFixedPoint128Filterer, eth.DeployFixedPoint128,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.FixedPoint128)
			return []any{&eth.FixedPoint128Session{v, c, t}, &eth.FixedPoint128CallerSession{&v.FixedPoint128Caller, c}, &eth.FixedPoint128TransactorSession{&v.FixedPoint128Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.FixedPoint128)
			return []any{&eth.FixedPoint128Raw{v}, &eth.FixedPoint128CallerRaw{&v.FixedPoint128Caller}, &eth.FixedPoint128TransactorRaw{&v.FixedPoint128Transactor}}
		}},
	{"eth.FixedPoint96", eth.FixedPoint96MetaData, &eth.FixedPoint96ABI, eth.NewFixedPoint96, eth.NewFixedPoint96Caller, eth.NewFixedPoint96Transactor, eth.NewFixedPoint96Filterer, eth.DeployFixedPoint96,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.FixedPoint96)
			return []any{&eth.FixedPoint96Session{v, c, t}, &eth.FixedPoint96CallerSession{&v.FixedPoint96Caller, c}, &eth.FixedPoint96TransactorSession{&v.FixedPoint96Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.FixedPoint96)
			return []any{&eth.FixedPoint96Raw{v}, &eth.FixedPoint96CallerRaw{&v.FixedPoint96Caller}, &eth.FixedPoint96TransactorRaw{&v.FixedPoint96Transactor}}
		}},
	{"eth.FullMath", eth.FullMathMetaData, &eth.FullMathABI, eth.NewFullMath, eth.NewFullMathCaller, eth.NewFullMathTransactor, eth.NewFullMathFilterer, eth.DeployFullMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.FullMath)
			return []any{&eth.FullMathSession{v, c, t}, &eth.FullMathCallerSession{&v.FullMathCaller, c}, &eth.FullMathTransactorSession{&v.FullMathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.FullMath)
			return []any{&eth.FullMathRaw{v}, &eth.FullMathCallerRaw{&v.FullMathCaller}, &eth.FullMathTransactorRaw{&v.FullMathTransactor}}
		}},
	{"eth.Helpers", eth.HelpersMetaData, &eth.HelpersABI, eth.NewHelpers, eth.NewHelpersCaller, eth.NewHelpersTransactor, eth.NewHelpersFilterer, eth.DeployHelpers,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Helpers)
			return []any{&eth.HelpersSession{v, c, t}, &eth.HelpersCallerSession{&v.HelpersCaller, c}, &eth.HelpersTransactorSession{&v.HelpersTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Helpers)
			return []any{&eth.HelpersRaw{v}, &eth.HelpersCallerRaw{&v.HelpersCaller}, &eth.HelpersTransactorRaw{&v.HelpersTransactor}}
		}},
	{"eth.Hooks", eth.HooksMetaData, &eth.HooksABI, eth.NewHooks, eth.NewHooksCaller, eth.NewHooksTransactor, eth.NewHooksFilterer, eth.DeployHooks,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Hooks)
			return []any{&eth.HooksSession{v, c, t}, &eth.HooksCallerSession{&v.HooksCaller, c}, &eth.HooksTransactorSession{&v.HooksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Hooks)
			return []any{&eth.HooksRaw{v}, &eth.HooksCallerRaw{&v.HooksCaller}, &eth.HooksTransactorRaw{&v.HooksTransactor}}
		}},
	{"eth.IAnchorBlocks", eth.IAnchorBlocksMetaData, &eth.IAnchorBlocksABI, eth.NewIAnchorBlocks, eth.NewIAnchorBlocksCaller, eth.NewIAnchorBlocksTransactor, eth.NewIAnchorBlocksFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IAnchorBlocks)
			return []any{&eth.IAnchorBlocksSession{v, c, t}, &eth.IAnchorBlocksCallerSession{&v.IAnchorBlocksCaller, c}, &eth.IAnchorBlocksTransactorSession{&v.IAnchorBlocksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IAnchorBlocks)
			return []any{&eth.IAnchorBlocksRaw{v}, &eth.IAnchorBlocksCallerRaw{&v.IAnchorBlocksCaller}, &eth.IAnchorBlocksTransactorRaw{&v.IAnchorBlocksTransactor}}
		}},
	{"eth.IAvsSigsVerifier", eth.IAvsSigsVerifierMetaData, &eth.IAvsSigsVerifierABI, eth.NewIAvsSigsVerifier, eth.NewIAvsSigsVerifierCaller, eth.NewIAvsSigsVerifierTransactor, eth.NewIAvsSigsVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IAvsSigsVerifier)
			return []any{&eth.IAvsSigsVerifierSession{v, c, t}, &eth.IAvsSigsVerifierCallerSession{&v.IAvsSigsVerifierCaller, c}, &eth.IAvsSigsVerifierTransactorSession{&v.IAvsSigsVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IAvsSigsVerifier)
			return []any{&eth.IAvsSigsVerifierRaw{v}, &eth.IAvsSigsVerifierCallerRaw{&v.IAvsSigsVerifierCaller}, &eth.IAvsSigsVerifierTransactorRaw{&v.IAvsSigsVerifierTransactor}}
		}},
	{"eth.IBeaconVerifier", eth.IBeaconVerifierMetaData, &eth.IBeaconVerifierABI, eth.NewIBeaconVerifier, eth.NewIBeaconVerifierCaller, eth.NewIBeaconVerifierTransactor, eth.NewIBeaconVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBeaconVerifier)
			return []any{&eth.IBeaconVerifierSession{v, c, t}, &eth.IBeaconVerifierCallerSession{&v.IBeaconVerifierCaller, c}, &eth.IBeaconVerifierTransactorSession{&v.IBeaconVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBeaconVerifier)
			return []any{&eth.IBeaconVerifierRaw{v}, &eth.IBeaconVerifierCallerRaw{&v.IBeaconVerifierCaller}, &eth.IBeaconVerifierTransactorRaw{&v.IBeaconVerifierTransactor}}
		}},
	{"eth.IBlockChunks", eth.IBlockChunksMetaData, &eth.IBlockChunksABI, eth.NewIBlockChunks, eth.NewIBlockChunksCaller, eth.NewIBlockChunksTransactor, eth.NewIBlockChunksFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBlockChunks)
			return []any{&eth.IBlockChunksSession{v, c, t}, &eth.IBlockChunksCallerSession{&v.IBlockChunksCaller, c}, &eth.IBlockChunksTransactorSession{&v.IBlockChunksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBlockChunks)
			return []any{&eth.IBlockChunksRaw{v}, &eth.IBlockChunksCallerRaw{&v.IBlockChunksCaller}, &eth.IBlockChunksTransactorRaw{&v.IBlockChunksTransactor}}
		}},
	{"eth.IBrevisApp", eth.IBrevisAppMetaData, &eth.IBrevisAppABI, eth.NewIBrevisApp, eth.NewIBrevisAppCaller, eth.NewIBrevisAppTransactor, eth.NewIBrevisAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBrevisApp)
			return []any{&eth.IBrevisAppSession{v, c, t}, &eth.IBrevisAppCallerSession{&v.IBrevisAppCaller, c}, &eth.IBrevisAppTransactorSession{&v.IBrevisAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBrevisApp)
			return []any{&eth.IBrevisAppRaw{v}, &eth.IBrevisAppCallerRaw{&v.IBrevisAppCaller}, &eth.IBrevisAppTransactorRaw{&v.IBrevisAppTransactor}}
		}},
	{"eth.IBrevisDispute", eth.IBrevisDisputeMetaData, &eth.IBrevisDisputeABI, eth.NewIBrevisDispute, eth.NewIBrevisDisputeCaller, eth.NewIBrevisDisputeTransactor, eth.NewIBrevisDisputeFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBrevisDispute)
			return []any{&eth.IBrevisDisputeSession{v, c, t}, &eth.IBrevisDisputeCallerSession{&v.IBrevisDisputeCaller, c}, &eth.IBrevisDisputeTransactorSession{&v.IBrevisDisputeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBrevisDispute)
			return []any{&eth.IBrevisDisputeRaw{v}, &eth.IBrevisDisputeCallerRaw{&v.IBrevisDisputeCaller}, &eth.IBrevisDisputeTransactorRaw{&v.IBrevisDisputeTransactor}}
		}},
	{"eth.IBrevisProof", eth.IBrevisProofMetaData, &eth.IBrevisProofABI, eth.NewIBrevisProof, eth.NewIBrevisProofCaller, eth.NewIBrevisProofTransactor, eth.NewIBrevisProofFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBrevisProof)
			return []any{&eth.IBrevisProofSession{v, c, t}, &eth.IBrevisProofCallerSession{&v.IBrevisProofCaller, c}, &eth.IBrevisProofTransactorSession{&v.IBrevisProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBrevisProof)
			return []any{&eth.IBrevisProofRaw{v}, &eth.IBrevisProofCallerRaw{&v.IBrevisProofCaller}, &eth.IBrevisProofTransactorRaw{&v.IBrevisProofTransactor}}
		}},
	{"eth.IBrevisRequest", eth.IBrevisRequestMetaData, &eth.IBrevisRequestABI, eth.NewIBrevisRequest, eth.NewIBrevisRequestCaller, eth.NewIBrevisRequestTransactor, eth.NewIBrevisRequestFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBrevisRequest)
			return []any{&eth.IBrevisRequestSession{v, c, t}, &eth.IBrevisRequestCallerSession{&v.IBrevisRequestCaller, c}, &eth.IBrevisRequestTransactorSession{&v.IBrevisRequestTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBrevisRequest)
			return []any{&eth.IBrevisRequestRaw{v}, &eth.IBrevisRequestCallerRaw{&v.IBrevisRequestCaller}, &eth.IBrevisRequestTransactorRaw{&v.IBrevisRequestTransactor}}
		}},
	{"eth.IBrevisTypes", eth.IBrevisTypesMetaData, &eth.IBrevisTypesABI, eth.NewIBrevisTypes, eth.NewIBrevisTypesCaller, eth.NewIBrevisTypesTransactor, eth.NewIBrevisTypesFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBrevisTypes)
			return []any{&eth.IBrevisTypesSession{v, c, t}, &eth.IBrevisTypesCallerSession{&v.IBrevisTypesCaller, c}, &eth.IBrevisTypesTransactorSession{&v.IBrevisTypesTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBrevisTypes)
			return []any{&eth.IBrevisTypesRaw{v}, &eth.IBrevisTypesCallerRaw{&v.IBrevisTypesCaller}, &eth.IBrevisTypesTransactorRaw{&v.IBrevisTypesTransactor}}
		}},
	{"eth.IBvnSigsVerifier", eth.IBvnSigsVerifierMetaData, &eth.IBvnSigsVerifierABI, eth.NewIBvnSigsVerifier, eth.NewIBvnSigsVerifierCaller, eth.NewIBvnSigsVerifierTransactor, eth.NewIBvnSigsVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IBvnSigsVerifier)
			return []any{&eth.IBvnSigsVerifierSession{v, c, t}, &eth.IBvnSigsVerifierCallerSession{&v.IBvnSigsVerifierCaller, c}, &eth.IBvnSigsVerifierTransactorSession{&v.IBvnSigsVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IBvnSigsVerifier)
			return []any{&eth.IBvnSigsVerifierRaw{v}, &eth.IBvnSigsVerifierCallerRaw{&v.IBvnSigsVerifierCaller}, &eth.IBvnSigsVerifierTransactorRaw{&v.IBvnSigsVerifierTransactor}}
		}},
	{"eth.IDynamicFeeManager", eth.IDynamicFeeManagerMetaData, &eth.IDynamicFeeManagerABI, eth.NewIDynamicFeeManager, eth.NewIDynamicFeeManagerCaller, eth.NewIDynamicFeeManagerTransactor, eth.NewIDynamicFeeManagerFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IDynamicFeeManager)
			return []any{&eth.IDynamicFeeManagerSession{v, c, t}, &eth.IDynamicFeeManagerCallerSession{&v.IDynamicFeeManagerCaller, c}, &eth.IDynamicFeeManagerTransactorSession{&v.IDynamicFeeManagerTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IDynamicFeeManager)
			return []any{&eth.IDynamicFeeManagerRaw{v}, &eth.IDynamicFeeManagerCallerRaw{&v.IDynamicFeeManagerCaller}, &eth.IDynamicFeeManagerTransactorRaw{&v.IDynamicFeeManagerTransactor}}
		}},
	{"eth.IERC1155", eth.IERC1155MetaData, &eth.IERC1155ABI, eth.NewIERC1155, eth.NewIERC1155Caller, eth.NewIERC1155Transactor, eth.NewIERC1155Filterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IERC1155)
			return []any{&eth.IERC1155Session{v, c, t}, &eth.IERC1155CallerSession{&v.IERC1155Caller, c}, &eth.IERC1155TransactorSession{&v.IERC1155Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IERC1155)
			return []any{&eth.IERC1155Raw{v}, &eth.IERC1155CallerRaw{&v.IERC1155Caller}, &eth.IERC1155TransactorRaw{&v.IERC1155Transactor}}
		}},
	{"eth.IERC165", eth.IERC165MetaData, &eth.IERC165ABI, eth.NewIERC165, eth.NewIERC165Caller, eth.NewIERC165Transactor, eth.NewIERC165Filterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IERC165)
			return []any{&eth.IERC165Session{v, c, t}, &eth.IERC165CallerSession{&v.IERC165Caller, c}, &eth.IERC165TransactorSession{&v.IERC165Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IERC165)
			return []any{&eth.IERC165Raw{v}, &eth.IERC165CallerRaw{&v.IERC165Caller}, &eth.IERC165TransactorRaw{&v.IERC165Transactor}}
		}},
	{"eth.IERC20", eth.IERC20MetaData, &eth.IERC20ABI, eth.NewIERC20, eth.NewIERC20Caller, eth.NewIERC20Transactor, eth.NewIERC20Filterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IERC20)
			return []any{&eth.IERC20Session{v, c, t}, &eth.IERC20CallerSession{&v.IERC20Caller, c}, &eth.IERC20TransactorSession{&v.IERC20Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IERC20)
			return []any{&eth.IERC20Raw{v}, &eth.IERC20CallerRaw{&v.IERC20Caller}, &eth.IERC20TransactorRaw{&v.IERC20Transactor}}
		}},
	{"eth.IERC20Metadata", eth.IERC20MetadataMetaData, &eth.IERC20MetadataABI, eth.NewIERC20Metadata, eth.NewIERC20MetadataCaller, eth.NewIERC20MetadataTransactor, eth.NewIERC20MetadataFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IERC20Metadata)
			return []any{&eth.IERC20MetadataSession{v, c, t}, &eth.IERC20MetadataCallerSession{&v.IERC20MetadataCaller, c}, &eth.IERC20MetadataTransactorSession{&v.IERC20MetadataTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IERC20Metadata)
			return []any{&eth.IERC20MetadataRaw{v}, &eth.IERC20MetadataCallerRaw{&v.IERC20MetadataCaller}, &eth.IERC20MetadataTransactorRaw{&v.IERC20MetadataTransactor}}
		}},
	{"eth.IERC20Minimal", eth.IERC20MinimalMetaData, &eth.IERC20MinimalABI, eth.NewIERC20Minimal, eth.NewIERC20MinimalCaller, eth.NewIERC20MinimalTransactor, eth.NewIERC20MinimalFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IERC20Minimal)
			return []any{&eth.IERC20MinimalSession{v, c, t}, &eth.IERC20MinimalCallerSession{&v.IERC20MinimalCaller, c}, &eth.IERC20MinimalTransactorSession{&v.IERC20MinimalTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IERC20Minimal)
			return []any{&eth.IERC20MinimalRaw{v}, &eth.IERC20MinimalCallerRaw{&v.IERC20MinimalCaller}, &eth.IERC20MinimalTransactorRaw{&v.IERC20MinimalTransactor}}
		}},
	{"eth.IEthereumLightClient", eth.IEthereumLightClientMetaData, &eth.IEthereumLightClientABI, eth.NewIEthereumLightClient, eth.NewIEthereumLightClientCaller, eth.NewIEthereumLightClientTransactor, eth.NewIEthereumLightClientFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IEthereumLightClient)
			return []any{&eth.IEthereumLightClientSession{v, c, t}, &eth.IEthereumLightClientCallerSession{&v.IEthereumLightClientCaller, c}, &eth.IEthereumLightClientTransactorSession{&v.IEthereumLightClientTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IEthereumLightClient)
			return []any{&eth.IEthereumLightClientRaw{v}, &eth.IEthereumLightClientCallerRaw{&v.IEthereumLightClientCaller}, &eth.IEthereumLightClientTransactorRaw{&v.IEthereumLightClientTransactor}}
		}},
	{"eth.IFees", eth.IFeesMetaData, &eth.IFeesABI, eth.NewIFees, eth.NewIFeesCaller, eth.NewIFeesTransactor, eth.NewIFeesFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IFees)
			return []any{&eth.IFeesSession{v, c, t}, &eth.IFeesCallerSession{&v.IFeesCaller, c}, &eth.IFeesTransactorSession{&v.IFeesTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IFees)
			return []any{&eth.IFeesRaw{v}, &eth.IFeesCallerRaw{&v.IFeesCaller}, &eth.IFeesTransactorRaw{&v.IFeesTransactor}}
		}},
	{"eth.IHookFeeManager", eth.IHookFeeManagerMetaData, &eth.IHookFeeManagerABI, eth.NewIHookFeeManager, eth.NewIHookFeeManagerCaller, eth.NewIHookFeeManagerTransactor, eth.NewIHookFeeManagerFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IHookFeeManager)
			return []any{&eth.IHookFeeManagerSession{v, c, t}, &eth.IHookFeeManagerCallerSession{&v.IHookFeeManagerCaller, c}, &eth.IHookFeeManagerTransactorSession{&v.IHookFeeManagerTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IHookFeeManager)
			return []any{&eth.IHookFeeManagerRaw{v}, &eth.IHookFeeManagerCallerRaw{&v.IHookFeeManagerCaller}, &eth.IHookFeeManagerTransactorRaw{&v.IHookFeeManagerTransactor}}
		}},
	{"eth.IHooks", eth.IHooksMetaData, &eth.IHooksABI, eth.NewIHooks, eth.NewIHooksCaller, eth.NewIHooksTransactor, eth.NewIHooksFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IHooks)
			return []any{&eth.IHooksSession{v, c, t}, &eth.IHooksCallerSession{&v.IHooksCaller, c}, &eth.IHooksTransactorSession{&v.IHooksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IHooks)
			return []any{&eth.IHooksRaw{v}, &eth.IHooksCallerRaw{&v.IHooksCaller}, &eth.IHooksTransactorRaw{&v.IHooksTransactor}}
		}},
	{"eth.IMessageBridge", eth.IMessageBridgeMetaData, &eth.IMessageBridgeABI, eth.NewIMessageBridge, eth.NewIMessageBridgeCaller, eth.NewIMessageBridgeTransactor, eth.NewIMessageBridgeFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IMessageBridge)
			return []any{&eth.IMessageBridgeSession{v, c, t}, &eth.IMessageBridgeCallerSession{&v.IMessageBridgeCaller, c}, &eth.IMessageBridgeTransactorSession{&v.IMessageBridgeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IMessageBridge)
			return []any{&eth.IMessageBridgeRaw{v}, &eth.IMessageBridgeCallerRaw{&v.IMessageBridgeCaller}, &eth.IMessageBridgeTransactorRaw{&v.IMessageBridgeTransactor}}
		}},
	{"eth.IMessageReceiverApp", eth.IMessageReceiverAppMetaData, &eth.IMessageReceiverAppABI, eth.NewIMessageReceiverApp, eth.NewIMessageReceiverAppCaller, eth.NewIMessageReceiverAppTransactor, eth.NewIMessageReceiverAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IMessageReceiverApp)
			return []any{&eth.IMessageReceiverAppSession{v, c, t}, &eth.IMessageReceiverAppCallerSession{&v.IMessageReceiverAppCaller, c}, &eth.IMessageReceiverAppTransactorSession{&v.IMessageReceiverAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IMessageReceiverApp)
			return []any{&eth.IMessageReceiverAppRaw{v}, &eth.IMessageReceiverAppCallerRaw{&v.IMessageReceiverAppCaller}, &eth.IMessageReceiverAppTransactorRaw{&v.IMessageReceiverAppTransactor}}
		}},
	{"eth.IPeggedToken", eth.IPeggedTokenMetaData, &eth.IPeggedTokenABI, eth.NewIPeggedToken, eth.NewIPeggedTokenCaller, eth.NewIPeggedTokenTransactor, eth.NewIPeggedTokenFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IPeggedToken)
			return []any{&eth.IPeggedTokenSession{v, c, t}, &eth.IPeggedTokenCallerSession{&v.IPeggedTokenCaller, c}, &eth.IPeggedTokenTransactorSession{&v.IPeggedTokenTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IPeggedToken)
			return []any{&eth.IPeggedTokenRaw{v}, &eth.IPeggedTokenCallerRaw{&v.IPeggedTokenCaller}, &eth.IPeggedTokenTransactorRaw{&v.IPeggedTokenTransactor}}
		}},
	{"eth.IPoolManager", eth.IPoolManagerMetaData, &eth.IPoolManagerABI, eth.NewIPoolManager, eth.NewIPoolManagerCaller, eth.NewIPoolManagerTransactor, eth.NewIPoolManagerFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IPoolManager)
			return []any{&eth.IPoolManagerSession{v, c, t}, &eth.IPoolManagerCallerSession{&v.IPoolManagerCaller, c}, &eth.IPoolManagerTransactorSession{&v.IPoolManagerTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IPoolManager)
			return []any{&eth.IPoolManagerRaw{v}, &eth.IPoolManagerCallerRaw{&v.IPoolManagerCaller}, &eth.IPoolManagerTransactorRaw{&v.IPoolManagerTransactor}}
		}},
	{"eth.IReceiptVerifier", eth.IReceiptVerifierMetaData, &eth.IReceiptVerifierABI, eth.NewIReceiptVerifier, eth.NewIReceiptVerifierCaller, eth.NewIReceiptVerifierTransactor, eth.NewIReceiptVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IReceiptVerifier)
			return []any{&eth.IReceiptVerifierSession{v, c, t}, &eth.IReceiptVerifierCallerSession{&v.IReceiptVerifierCaller, c}, &eth.IReceiptVerifierTransactorSession{&v.IReceiptVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IReceiptVerifier)
			return []any{&eth.IReceiptVerifierRaw{v}, &eth.IReceiptVerifierCallerRaw{&v.IReceiptVerifierCaller}, &eth.IReceiptVerifierTransactorRaw{&v.IReceiptVerifierTransactor}}
		}},
	{"eth.ISMT", eth.ISMTMetaData, &eth.ISMTABI, eth.NewISMT, eth.NewISMTCaller, eth.NewISMTTransactor, eth.NewISMTFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ISMT)
			return []any{&eth.ISMTSession{v, c, t}, &eth.ISMTCallerSession{&v.ISMTCaller, c}, &eth.ISMTTransactorSession{&v.ISMTTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ISMT)
			return []any{&eth.ISMTRaw{v}, &eth.ISMTCallerRaw{&v.ISMTCaller}, &eth.ISMTTransactorRaw{&v.ISMTTransactor}}
		}},
	{"eth.ISlotValueVerifier", eth.ISlotValueVerifierMetaData, &eth.ISlotValueVerifierABI, eth.NewISlotValueVerifier, eth.NewISlotValueVerifierCaller, eth.NewISlotValueVerifierTransactor, eth.NewISlotValueVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ISlotValueVerifier)
			return []any{&eth.ISlotValueVerifierSession{v, c, t}, &eth.ISlotValueVerifierCallerSession{&v.ISlotValueVerifierCaller, c}, &eth.ISlotValueVerifierTransactorSession{&v.ISlotValueVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ISlotValueVerifier)
			return []any{&eth.ISlotValueVerifierRaw{v}, &eth.ISlotValueVerifierCallerRaw{&v.ISlotValueVerifierCaller}, &eth.ISlotValueVerifierTransactorRaw{&v.ISlotValueVerifierTransactor}}
		}},
	{"eth.ITxVerifier", eth.ITxVerifierMetaData, &eth.ITxVerifierABI, eth.NewITxVerifier, eth.NewITxVerifierCaller, eth.NewITxVerifierTransactor, eth.NewITxVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ITxVerifier)
			return []any{&eth.ITxVerifierSession{v, c, t}, &eth.ITxVerifierCallerSession{&v.ITxVerifierCaller, c}, &eth.ITxVerifierTransactorSession{&v.ITxVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ITxVerifier)
			return []any{&eth.ITxVerifierRaw{v}, &eth.ITxVerifierCallerRaw{&v.ITxVerifierCaller}, &eth.ITxVerifierTransactorRaw{&v.ITxVerifierTransactor}}
		}},
	{"eth.IUniswapSumVolume", eth.IUniswapSumVolumeMetaData, &eth.IUniswapSumVolumeABI, eth.NewIUniswapSumVolume, eth.NewIUniswapSumVolumeCaller, eth.NewIUniswapSumVolumeTransactor, eth.NewIUniswapSumVolumeFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IUniswapSumVolume)
			return []any{&eth.IUniswapSumVolumeSession{v, c, t}, &eth.IUniswapSumVolumeCallerSession{&v.IUniswapSumVolumeCaller, c}, &eth.IUniswapSumVolumeTransactorSession{&v.IUniswapSumVolumeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IUniswapSumVolume)
			return []any{&eth.IUniswapSumVolumeRaw{v}, &eth.IUniswapSumVolumeCallerRaw{&v.IUniswapSumVolumeCaller}, &eth.IUniswapSumVolumeTransactorRaw{&v.IUniswapSumVolumeTransactor}}
		}},
	{"eth.IVerifier", eth.IVerifierMetaData, &eth.IVerifierABI, eth.NewIVerifier, eth.NewIVerifierCaller, eth.NewIVerifierTransactor, eth.NewIVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IVerifier)
			return []any{&eth.IVerifierSession{v, c, t}, &eth.IVerifierCallerSession{&v.IVerifierCaller, c}, &eth.IVerifierTransactorSession{&v.IVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IVerifier)
			return []any{&eth.IVerifierRaw{v}, &eth.IVerifierCallerRaw{&v.IVerifierCaller}, &eth.IVerifierTransactorRaw{&v.IVerifierTransactor}}
		}},
	{"eth.IZkpVerifier", eth.IZkpVerifierMetaData, &eth.IZkpVerifierABI, eth.NewIZkpVerifier, eth.NewIZkpVerifierCaller, eth.NewIZkpVerifierTransactor, eth.NewIZkpVerifierFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.IZkpVerifier)
			return []any{&eth.IZkpVerifierSession{v, c, t}, &eth.IZkpVerifierCallerSession{&v.IZkpVerifierCaller, c}, &eth.IZkpVerifierTransactorSession{&v.IZkpVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.IZkpVerifier)
			return []any{&eth.IZkpVerifierRaw{v}, &eth.IZkpVerifierCallerRaw{&v.IZkpVerifierCaller}, &eth.IZkpVerifierTransactorRaw{&v.IZkpVerifierTransactor}}
		}},
	{"eth.LightClientStore", eth.LightClientStoreMetaData, &eth.LightClientStoreABI, eth.NewLightClientStore, eth.NewLightClientStoreCaller, eth.NewLightClientStoreTransactor, eth.NewLightClientStoreFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.LightClientStore)
			return []any{&eth.LightClientStoreSession{v, c, t}, &eth.LightClientStoreCallerSession{&v.LightClientStoreCaller, c}, &eth.LightClientStoreTransactorSession{&v.LightClientStoreTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.LightClientStore)
			return []any{&eth.LightClientStoreRaw{v}, &eth.LightClientStoreCallerRaw{&v.LightClientStoreCaller}, &eth.LightClientStoreTransactorRaw{&v.LightClientStoreTransactor}}
		}},
	{"eth.MerkleProofTree", eth.MerkleProofTreeMetaData, &eth.MerkleProofTreeABI, eth.NewMerkleProofTree, eth.NewMerkleProofTreeCaller, eth.NewMerkleProofTreeTransactor, eth.NewMerkleProofTreeFilterer, eth.DeployMerkleProofTree,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MerkleProofTree)
			return []any{&eth.MerkleProofTreeSession{v, c, t}, &eth.MerkleProofTreeCallerSession{&v.MerkleProofTreeCaller, c}, &eth.MerkleProofTreeTransactorSession{&v.MerkleProofTreeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MerkleProofTree)
			return []any{&eth.MerkleProofTreeRaw{v}, &eth.MerkleProofTreeCallerRaw{&v.MerkleProofTreeCaller}, &eth.MerkleProofTreeTransactorRaw{&v.MerkleProofTreeTransactor}}
		}},
	{"eth.MessageApp", eth.MessageAppMetaData, &eth.MessageAppABI, eth.NewMessageApp, eth.NewMessageAppCaller, eth.NewMessageAppTransactor, eth.NewMessageAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MessageApp)
			return []any{&eth.MessageAppSession{v, c, t}, &eth.MessageAppCallerSession{&v.MessageAppCaller, c}, &eth.MessageAppTransactorSession{&v.MessageAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MessageApp)
			return []any{&eth.MessageAppRaw{v}, &eth.MessageAppCallerRaw{&v.MessageAppCaller}, &eth.MessageAppTransactorRaw{&v.MessageAppTransactor}}
		}},
	{"eth.MessageBridge", eth.MessageBridgeMetaData, &eth.MessageBridgeABI, eth.NewMessageBridge, eth.NewMessageBridgeCaller, eth.NewMessageBridgeTransactor, eth.NewMessageBridgeFilterer, eth.DeployMessageBridge,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MessageBridge)
			return []any{&eth.MessageBridgeSession{v, c, t}, &eth.MessageBridgeCallerSession{&v.MessageBridgeCaller, c}, &eth.MessageBridgeTransactorSession{&v.MessageBridgeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MessageBridge)
			return []any{&eth.MessageBridgeRaw{v}, &eth.MessageBridgeCallerRaw{&v.MessageBridgeCaller}, &eth.MessageBridgeTransactorRaw{&v.MessageBridgeTransactor}}
		}},
	{"eth.MessageBridgeAddress", eth.MessageBridgeAddressMetaData, &eth.MessageBridgeAddressABI, eth.NewMessageBridgeAddress, eth.NewMessageBridgeAddressCaller, eth.NewMessageBridgeAddressTransactor, eth.NewMessageBridgeAddressFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MessageBridgeAddress)
			return []any{&eth.MessageBridgeAddressSession{v, c, t}, &eth.MessageBridgeAddressCallerSession{&v.MessageBridgeAddressCaller, c}, &eth.MessageBridgeAddressTransactorSession{&v.MessageBridgeAddressTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MessageBridgeAddress)
			return []any{&eth.MessageBridgeAddressRaw{v}, &eth.MessageBridgeAddressCallerRaw{&v.MessageBridgeAddressCaller}, &eth.MessageBridgeAddressTransactorRaw{&v.MessageBridgeAddressTransactor}}
		}},
	{"eth.MessageReceiverApp", eth.MessageReceiverAppMetaData, &eth.MessageReceiverAppABI, eth.NewMessageReceiverApp, eth.NewMessageReceiverAppCaller, eth.NewMessageReceiverAppTransactor, eth.NewMessageReceiverAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MessageReceiverApp)
			return []any{&eth.MessageReceiverAppSession{v, c, t}, &eth.MessageReceiverAppCallerSession{&v.MessageReceiverAppCaller, c}, &eth.MessageReceiverAppTransactorSession{&v.MessageReceiverAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MessageReceiverApp)
			return []any{&eth.MessageReceiverAppRaw{v}, &eth.MessageReceiverAppCallerRaw{&v.MessageReceiverAppCaller}, &eth.MessageReceiverAppTransactorRaw{&v.MessageReceiverAppTransactor}}
		}},
	{"eth.MessageSenderApp", eth.MessageSenderAppMetaData, &eth.MessageSenderAppABI, eth.NewMessageSenderApp, eth.NewMessageSenderAppCaller, eth.NewMessageSenderAppTransactor, eth.NewMessageSenderAppFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MessageSenderApp)
			return []any{&eth.MessageSenderAppSession{v, c, t}, &eth.MessageSenderAppCallerSession{&v.MessageSenderAppCaller, c}, &eth.MessageSenderAppTransactorSession{&v.MessageSenderAppTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MessageSenderApp)
			return []any{&eth.MessageSenderAppRaw{v}, &eth.MessageSenderAppCallerRaw{&v.MessageSenderAppCaller}, &eth.MessageSenderAppTransactorRaw{&v.MessageSenderAppTransactor}}
		}},
	{"eth.MintableERC20", eth.MintableERC20MetaData, &eth.MintableERC20ABI, eth.NewMintableERC20, eth.NewMintableERC20Caller, eth.NewMintableERC20Transactor, eth.NewMintableERC20Filterer, eth.DeployMintableERC20,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MintableERC20)
			return []any{&eth.MintableERC20Session{v, c, t}, &eth.MintableERC20CallerSession{&v.MintableERC20Caller, c}, &eth.MintableERC20TransactorSession{&v.MintableERC20Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MintableERC20)
			return []any{&eth.MintableERC20Raw{v}, &eth.MintableERC20CallerRaw{&v.MintableERC20Caller}, &eth.MintableERC20TransactorRaw{&v.MintableERC20Transactor}}
		}},
	{"eth.MockUniswapSumVolume", eth.MockUniswapSumVolumeMetaData, &eth.MockUniswapSumVolumeABI, eth.NewMockUniswapSumVolume, eth.NewMockUniswapSumVolumeCaller, eth.NewMockUniswapSumVolumeTransactor, eth.NewMockUniswapSumVolumeFilterer, eth.DeployMockUniswapSumVolume,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MockUniswapSumVolume)
			return []any{&eth.MockUniswapSumVolumeSession{v, c, t}, &eth.MockUniswapSumVolumeCallerSession{&v.MockUniswapSumVolumeCaller, c}, &eth.MockUniswapSumVolumeTransactorSession{&v.MockUniswapSumVolumeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MockUniswapSumVolume)
			return []any{&eth.MockUniswapSumVolumeRaw{v}, &eth.MockUniswapSumVolumeCallerRaw{&v.MockUniswapSumVolumeCaller}, &eth.MockUniswapSumVolumeTransactorRaw{&v.MockUniswapSumVolumeTransactor}}
		}},
	{"eth.MsgLib", eth.MsgLibMetaData, &eth.MsgLibABI, eth.NewMsgLib, eth.NewMsgLibCaller, eth.NewMsgLibTransactor, eth.NewMsgLibFilterer, eth.DeployMsgLib,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MsgLib)
			return []any{&eth.MsgLibSession{v, c, t}, &eth.MsgLibCallerSession{&v.MsgLibCaller, c}, &eth.MsgLibTransactorSession{&v.MsgLibTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MsgLib)
			return []any{&eth.MsgLibRaw{v}, &eth.MsgLibCallerRaw{&v.MsgLibCaller}, &eth.MsgLibTransactorRaw{&v.MsgLibTransactor}}
		}},
	{"eth.MsgReceiver", eth.MsgReceiverMetaData, &eth.MsgReceiverABI, eth.NewMsgReceiver, eth.NewMsgReceiverCaller, eth.NewMsgReceiverTransactor, eth.NewMsgReceiverFilterer, eth.DeployMsgReceiver,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MsgReceiver)
			return []any{&eth.MsgReceiverSession{v, c, t}, &eth.MsgReceiverCallerSession{&v.MsgReceiverCaller, c}, &eth.MsgReceiverTransactorSession{&v.MsgReceiverTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MsgReceiver)
			return []any{&eth.MsgReceiverRaw{v}, &eth.MsgReceiverCallerRaw{&v.MsgReceiverCaller}, &eth.MsgReceiverTransactorRaw{&v.MsgReceiverTransactor}}
		}},
	{"eth.MsgSender", eth.MsgSenderMetaData, &eth.MsgSenderABI, eth.NewMsgSender, eth.NewMsgSenderCaller, eth.NewMsgSenderTransactor, eth.NewMsgSenderFilterer, eth.DeployMsgSender,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.MsgSender)
			return []any{&eth.MsgSenderSession{v, c, t}, &eth.MsgSenderCallerSession{&v.MsgSenderCaller, c}, &eth.MsgSenderTransactorSession{&v.MsgSenderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.MsgSender)
			return []any{&eth.MsgSenderRaw{v}, &eth.MsgSenderCallerRaw{&v.MsgSenderCaller}, &eth.MsgSenderTransactorRaw{&v.MsgSenderTransactor}}
		}},
	{"eth.Ownable", eth.OwnableMetaData, &eth.OwnableABI, eth.NewOwnable, eth.NewOwnableCaller, eth.NewOwnableTransactor, eth.NewOwnableFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Ownable)
			return []any{&eth.OwnableSession{v, c, t}, &eth.OwnableCallerSession{&v.OwnableCaller, c}, &eth.OwnableTransactorSession{&v.OwnableTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Ownable)
			return []any{&eth.OwnableRaw{v}, &eth.OwnableCallerRaw{&v.OwnableCaller}, &eth.OwnableTransactorRaw{&v.OwnableTransactor}}
		}},
	{"eth.Pairing", eth.PairingMetaData, &eth.PairingABI, eth.NewPairing, eth.NewPairingCaller, eth.NewPairingTransactor, eth.NewPairingFilterer, eth.DeployPairing,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Pairing)
			return []any{&eth.PairingSession{v, c, t}, &eth.PairingCallerSession{&v.PairingCaller, c}, &eth.PairingTransactorSession{&v.PairingTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Pairing)
			return []any{&eth.PairingRaw{v}, &eth.PairingCallerRaw{&v.PairingCaller}, &eth.PairingTransactorRaw{&v.PairingTransactor}}
		}},
	{"eth.Pausable", eth.PausableMetaData, &eth.PausableABI, eth.NewPausable, eth.NewPausableCaller, eth.NewPausableTransactor, eth.NewPausableFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Pausable)
			return []any{&eth.PausableSession{v, c, t}, &eth.PausableCallerSession{&v.PausableCaller, c}, &eth.PausableTransactorSession{&v.PausableTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Pausable)
			return []any{&eth.PausableRaw{v}, &eth.PausableCallerRaw{&v.PausableCaller}, &eth.PausableTransactorRaw{&v.PausableTransactor}}
		}},
	{"eth.Pauser", eth.PauserMetaData, &eth.PauserABI, eth.NewPauser, eth.NewPauserCaller, eth.NewPauserTransactor, eth.NewPauserFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Pauser)
			return []any{&eth.PauserSession{v, c, t}, &eth.PauserCallerSession{&v.PauserCaller, c}, &eth.PauserTransactorSession{&v.PauserTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Pauser)
			return []any{&eth.PauserRaw{v}, &eth.PauserCallerRaw{&v.PauserCaller}, &eth.PauserTransactorRaw{&v.PauserTransactor}}
		}},
	{"eth.PegBridge", eth.PegBridgeMetaData, &eth.PegBridgeABI, eth.NewPegBridge, eth.NewPegBridgeCaller, eth.NewPegBridgeTransactor, eth.NewPegBridgeFilterer, eth.DeployPegBridge,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.PegBridge)
			return []any{&eth.PegBridgeSession{v, c, t}, &eth.PegBridgeCallerSession{&v.PegBridgeCaller, c}, &eth.PegBridgeTransactorSession{&v.PegBridgeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.PegBridge)
			return []any{&eth.PegBridgeRaw{v}, &eth.PegBridgeCallerRaw{&v.PegBridgeCaller}, &eth.PegBridgeTransactorRaw{&v.PegBridgeTransactor}}
		}},
	{"eth.Pool", eth.PoolMetaData, &eth.PoolABI, eth.NewPool, eth.NewPoolCaller, eth.NewPoolTransactor, eth.NewPoolFilterer, eth.DeployPool,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Pool)
			return []any{&eth.PoolSession{v, c, t}, &eth.PoolCallerSession{&v.PoolCaller, c}, &eth.PoolTransactorSession{&v.PoolTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Pool)
			return []any{&eth.PoolRaw{v}, &eth.PoolCallerRaw{&v.PoolCaller}, &eth.PoolTransactorRaw{&v.PoolTransactor}}
		}},
	{"eth.PoolIdLibrary", eth.PoolIdLibraryMetaData, &eth.PoolIdLibraryABI, eth.NewPoolIdLibrary, eth.NewPoolIdLibraryCaller, eth.NewPoolIdLibraryTransactor, eth.NewPoolIdLibraryFilterer, eth.DeployPoolIdLibrary,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.PoolIdLibrary)
			return []any{&eth.PoolIdLibrarySession{v, c, t}, &eth.PoolIdLibraryCallerSession{&v.PoolIdLibraryCaller, c}, &eth.PoolIdLibraryTransactorSession{&v.PoolIdLibraryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.PoolIdLibrary)
			return []any{&eth.PoolIdLibraryRaw{v}, &eth.PoolIdLibraryCallerRaw{&v.PoolIdLibraryCaller}, &eth.PoolIdLibraryTransactorRaw{&v.PoolIdLibraryTransactor}}
		}},
	{"eth.Position", eth.PositionMetaData, &eth.PositionABI, eth.NewPosition, eth.NewPositionCaller, eth.NewPositionTransactor, eth.NewPositionFilterer, eth.DeployPosition,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Position)
			return []any{&eth.PositionSession{v, c, t}, &eth.PositionCallerSession{&v.PositionCaller, c}, &eth.PositionTransactorSession{&v.PositionTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Position)
			return []any{&eth.PositionRaw{v}, &eth.PositionCallerRaw{&v.PositionCaller}, &eth.PositionTransactorRaw{&v.PositionTransactor}}
		}},
	{"eth.RLPReader", eth.RLPReaderMetaData, &eth.RLPReaderABI, eth.NewRLPReader, eth.NewRLPReaderCaller, eth.NewRLPReaderTransactor, eth.NewRLPReaderFilterer, eth.DeployRLPReader,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.RLPReader)
			return []any{&eth.RLPReaderSession{v, c, t}, &eth.RLPReaderCallerSession{&v.RLPReaderCaller, c}, &eth.RLPReaderTransactorSession{&v.RLPReaderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.RLPReader)
			return []any{&eth.RLPReaderRaw{v}, &eth.RLPReaderCallerRaw{&v.RLPReaderCaller}, &eth.RLPReaderTransactorRaw{&v.RLPReaderTransactor}}
		}},
	{"eth.ReceiptVerifier", eth.ReceiptVerifierMetaData, &eth.ReceiptVerifierABI, eth.NewReceiptVerifier, eth.NewReceiptVerifierCaller, eth.NewReceiptVerifierTransactor, eth.NewReceiptVerifierFilterer, eth.DeployReceiptVerifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ReceiptVerifier)
			return []any{&eth.ReceiptVerifierSession{v, c, t}, &eth.ReceiptVerifierCallerSession{&v.ReceiptVerifierCaller, c}, &eth.ReceiptVerifierTransactorSession{&v.ReceiptVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ReceiptVerifier)
			return []any{&eth.ReceiptVerifierRaw{v}, &eth.ReceiptVerifierCallerRaw{&v.ReceiptVerifierCaller}, &eth.ReceiptVerifierTransactorRaw{&v.ReceiptVerifierTransactor}}
		}},
	{"eth.ReentrancyGuard", eth.ReentrancyGuardMetaData, &eth.ReentrancyGuardABI, eth.NewReentrancyGuard, eth.NewReentrancyGuardCaller, eth.NewReentrancyGuardTransactor, eth.NewReentrancyGuardFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.ReentrancyGuard)
			return []any{&eth.ReentrancyGuardSession{v, c, t}, &eth.ReentrancyGuardCallerSession{&v.ReentrancyGuardCaller, c}, &eth.ReentrancyGuardTransactorSession{&v.ReentrancyGuardTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.ReentrancyGuard)
			return []any{&eth.ReentrancyGuardRaw{v}, &eth.ReentrancyGuardCallerRaw{&v.ReentrancyGuardCaller}, &eth.ReentrancyGuardTransactorRaw{&v.ReentrancyGuardTransactor}}
		}},
	{"eth.SMT", eth.SMTMetaData, &eth.SMTABI, eth.NewSMT, eth.NewSMTCaller, eth.NewSMTTransactor, eth.NewSMTFilterer, eth.DeploySMT,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SMT)
			return []any{&eth.SMTSession{v, c, t}, &eth.SMTCallerSession{&v.SMTCaller, c}, &eth.SMTTransactorSession{&v.SMTTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SMT)
			return []any{&eth.SMTRaw{v}, &eth.SMTCallerRaw{&v.SMTCaller}, &eth.SMTTransactorRaw{&v.SMTTransactor}}
		}},
	{"eth.SafeCast", eth.SafeCastMetaData, &eth.SafeCastABI, eth.NewSafeCast, eth.NewSafeCastCaller, eth.NewSafeCastTransactor, eth.NewSafeCastFilterer, eth.DeploySafeCast,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SafeCast)
			return []any{&eth.SafeCastSession{v, c, t}, &eth.SafeCastCallerSession{&v.SafeCastCaller, c}, &eth.SafeCastTransactorSession{&v.SafeCastTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SafeCast)
			return []any{&eth.SafeCastRaw{v}, &eth.SafeCastCallerRaw{&v.SafeCastCaller}, &eth.SafeCastTransactorRaw{&v.SafeCastTransactor}}
		}},
	{"eth.SafeERC20", eth.SafeERC20MetaData, &eth.SafeERC20ABI, eth.NewSafeERC20, eth.NewSafeERC20Caller, eth.NewSafeERC20Transactor, eth.NewSafeERC20Filterer, eth.DeploySafeERC20,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SafeERC20)
			return []any{&eth.SafeERC20Session{v, c, t}, &eth.SafeERC20CallerSession{&v.SafeERC20Caller, c}, &eth.SafeERC20TransactorSession{&v.SafeERC20Transactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SafeERC20)
			return []any{&eth.SafeERC20Raw{v}, &eth.SafeERC20CallerRaw{&v.SafeERC20Caller}, &eth.SafeERC20TransactorRaw{&v.SafeERC20Transactor}}
		}},
	{"eth.SameChainAnchorBlocks", eth.SameChainAnchorBlocksMetaData, &eth.SameChainAnchorBlocksABI, eth.NewSameChainAnchorBlocks, eth.NewSameChainAnchorBlocksCaller, eth.NewSameChainAnchorBlocksTransactor, eth.NewSameChainAnchorBlocksFilterer, eth.DeploySameChainAnchorBlocks,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SameChainAnchorBlocks)
			return []any{&eth.SameChainAnchorBlocksSession{v, c, t}, &eth.SameChainAnchorBlocksCallerSession{&v.SameChainAnchorBlocksCaller, c}, &eth.SameChainAnchorBlocksTransactorSession{&v.SameChainAnchorBlocksTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SameChainAnchorBlocks)
			return []any{&eth.SameChainAnchorBlocksRaw{v}, &eth.SameChainAnchorBlocksCallerRaw{&v.SameChainAnchorBlocksCaller}, &eth.SameChainAnchorBlocksTransactorRaw{&v.SameChainAnchorBlocksTransactor}}
		}},
	{"eth.SlotValue", eth.SlotValueMetaData, &eth.SlotValueABI, eth.NewSlotValue, eth.NewSlotValueCaller, eth.NewSlotValueTransactor, eth.NewSlotValueFilterer, eth.DeploySlotValue,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SlotValue)
			return []any{&eth.SlotValueSession{v, c, t}, &eth.SlotValueCallerSession{&v.SlotValueCaller, c}, &eth.SlotValueTransactorSession{&v.SlotValueTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SlotValue)
			return []any{&eth.SlotValueRaw{v}, &eth.SlotValueCallerRaw{&v.SlotValueCaller}, &eth.SlotValueTransactorRaw{&v.SlotValueTransactor}}
		}},
	{"eth.SlotValueVerifier", eth.SlotValueVerifierMetaData, &eth.SlotValueVerifierABI, eth.NewSlotValueVerifier, eth.NewSlotValueVerifierCaller, eth.NewSlotValueVerifierTransactor, eth.NewSlotValueVerifierFilterer, eth.DeploySlotValueVerifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SlotValueVerifier)
			return []any{&eth.SlotValueVerifierSession{v, c, t}, &eth.SlotValueVerifierCallerSession{&v.SlotValueVerifierCaller, c}, &eth.SlotValueVerifierTransactorSession{&v.SlotValueVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SlotValueVerifier)
			return []any{&eth.SlotValueVerifierRaw{v}, &eth.SlotValueVerifierCallerRaw{&v.SlotValueVerifierCaller}, &eth.SlotValueVerifierTransactorRaw{&v.SlotValueVerifierTransactor}}
		}},
	{"eth.SqrtPriceMath", eth.SqrtPriceMathMetaData, &eth.SqrtPriceMathABI, eth.NewSqrtPriceMath, eth.NewSqrtPriceMathCaller, eth.NewSqrtPriceMathTransactor, eth.NewSqrtPriceMathFilterer, eth.DeploySqrtPriceMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SqrtPriceMath)
			return []any{&eth.SqrtPriceMathSession{v, c, t}, &eth.SqrtPriceMathCallerSession{&v.SqrtPriceMathCaller, c}, &eth.SqrtPriceMathTransactorSession{&v.SqrtPriceMathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SqrtPriceMath)
			return []any{&eth.SqrtPriceMathRaw{v}, &eth.SqrtPriceMathCallerRaw{&v.SqrtPriceMathCaller}, &eth.SqrtPriceMathTransactorRaw{&v.SqrtPriceMathTransactor}}
		}},
	{"eth.Strings", eth.StringsMetaData, &eth.StringsABI, eth.NewStrings, eth.NewStringsCaller, eth.NewStringsTransactor, eth.NewStringsFilterer, eth.DeployStrings,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Strings)
			return []any{&eth.StringsSession{v, c, t}, &eth.StringsCallerSession{&v.StringsCaller, c}, &eth.StringsTransactorSession{&v.StringsTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Strings)
			return []any{&eth.StringsRaw{v}, &eth.StringsCallerRaw{&v.StringsCaller}, &eth.StringsTransactorRaw{&v.StringsTransactor}}
		}},
	{"eth.SwapMath", eth.SwapMathMetaData, &eth.SwapMathABI, eth.NewSwapMath, eth.NewSwapMathCaller, eth.NewSwapMathTransactor, eth.NewSwapMathFilterer, eth.DeploySwapMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.SwapMath)
			return []any{&eth.SwapMathSession{v, c, t}, &eth.SwapMathCallerSession{&v.SwapMathCaller, c}, &eth.SwapMathTransactorSession{&v.SwapMathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.SwapMath)
			return []any{&eth.SwapMathRaw{v}, &eth.SwapMathCallerRaw{&v.SwapMathCaller}, &eth.SwapMathTransactorRaw{&v.SwapMathTransactor}}
		}},
	{"eth.TestSMT", eth.TestSMTMetaData, &eth.TestSMTABI, eth.NewTestSMT, eth.NewTestSMTCaller, eth.NewTestSMTTransactor, eth.NewTestSMTFilterer, eth.DeployTestSMT,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TestSMT)
			return []any{&eth.TestSMTSession{v, c, t}, &eth.TestSMTCallerSession{&v.TestSMTCaller, c}, &eth.TestSMTTransactorSession{&v.TestSMTTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TestSMT)
			return []any{&eth.TestSMTRaw{v}, &eth.TestSMTCallerRaw{&v.TestSMTCaller}, &eth.TestSMTTransactorRaw{&v.TestSMTTransactor}}
		}},
	{"eth.TickBitmap", eth.TickBitmapMetaData, &eth.TickBitmapABI, eth.NewTickBitmap, eth.NewTickBitmapCaller, eth.NewTickBitmapTransactor, eth.NewTickBitmapFilterer, eth.DeployTickBitmap,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TickBitmap)
			return []any{&eth.TickBitmapSession{v, c, t}, &eth.TickBitmapCallerSession{&v.TickBitmapCaller, c}, &eth.TickBitmapTransactorSession{&v.TickBitmapTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TickBitmap)
			return []any{&eth.TickBitmapRaw{v}, &eth.TickBitmapCallerRaw{&v.TickBitmapCaller}, &eth.TickBitmapTransactorRaw{&v.TickBitmapTransactor}}
		}},
	{"eth.TickMath", eth.TickMathMetaData, &eth.TickMathABI, eth.NewTickMath, eth.NewTickMathCaller, eth.NewTickMathTransactor, eth.NewTickMathFilterer, eth.DeployTickMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TickMath)
			return []any{&eth.TickMathSession{v, c, t}, &eth.TickMathCallerSession{&v.TickMathCaller, c}, &eth.TickMathTransactorSession{&v.TickMathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TickMath)
			return []any{&eth.TickMathRaw{v}, &eth.TickMathCallerRaw{&v.TickMathCaller}, &eth.TickMathTransactorRaw{&v.TickMathTransactor}}
		}},
	{"eth.TierFactory", eth.TierFactoryMetaData, &eth.TierFactoryABI, eth.NewTierFactory, eth.NewTierFactoryCaller, eth.NewTierFactoryTransactor, eth.NewTierFactoryFilterer, eth.DeployTierFactory,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TierFactory)
			return []any{&eth.TierFactorySession{v, c, t}, &eth.TierFactoryCallerSession{&v.TierFactoryCaller, c}, &eth.TierFactoryTransactorSession{&v.TierFactoryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TierFactory)
			return []any{&eth.TierFactoryRaw{v}, &eth.TierFactoryCallerRaw{&v.TierFactoryCaller}, &eth.TierFactoryTransactorRaw{&v.TierFactoryTransactor}}
		}},
	{"eth.TierHook", eth.TierHookMetaData, &eth.TierHookABI, eth.NewTierHook, eth.NewTierHookCaller, eth.NewTierHookTransactor, eth.NewTierHookFilterer, eth.DeployTierHook,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TierHook)
			return []any{&eth.TierHookSession{v, c, t}, &eth.TierHookCallerSession{&v.TierHookCaller, c}, &eth.TierHookTransactorSession{&v.TierHookTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TierHook)
			return []any{&eth.TierHookRaw{v}, &eth.TierHookCallerRaw{&v.TierHookCaller}, &eth.TierHookTransactorRaw{&v.TierHookTransactor}}
		}},
	{"eth.TokenVault", eth.TokenVaultMetaData, &eth.TokenVaultABI, eth.NewTokenVault, eth.NewTokenVaultCaller, eth.NewTokenVaultTransactor, eth.NewTokenVaultFilterer, eth.DeployTokenVault,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TokenVault)
			return []any{&eth.TokenVaultSession{v, c, t}, &eth.TokenVaultCallerSession{&v.TokenVaultCaller, c}, &eth.TokenVaultTransactorSession{&v.TokenVaultTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TokenVault)
			return []any{&eth.TokenVaultRaw{v}, &eth.TokenVaultCallerRaw{&v.TokenVaultCaller}, &eth.TokenVaultTransactorRaw{&v.TokenVaultTransactor}}
		}},
	{"eth.Tx", eth.TxMetaData, &eth.TxABI, eth.NewTx, eth.NewTxCaller, eth.NewTxTransactor, eth.NewTxFilterer, eth.DeployTx,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Tx)
			return []any{&eth.TxSession{v, c, t}, &eth.TxCallerSession{&v.TxCaller, c}, &eth.TxTransactorSession{&v.TxTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Tx)
			return []any{&eth.TxRaw{v}, &eth.TxCallerRaw{&v.TxCaller}, &eth.TxTransactorRaw{&v.TxTransactor}}
		}},
	{"eth.TxVerifier", eth.TxVerifierMetaData, &eth.TxVerifierABI, eth.NewTxVerifier, eth.NewTxVerifierCaller, eth.NewTxVerifierTransactor, eth.NewTxVerifierFilterer, eth.DeployTxVerifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.TxVerifier)
			return []any{&eth.TxVerifierSession{v, c, t}, &eth.TxVerifierCallerSession{&v.TxVerifierCaller, c}, &eth.TxVerifierTransactorSession{&v.TxVerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.TxVerifier)
			return []any{&eth.TxVerifierRaw{v}, &eth.TxVerifierCallerRaw{&v.TxVerifierCaller}, &eth.TxVerifierTransactorRaw{&v.TxVerifierTransactor}}
		}},
	{"eth.UniswapSumVolume", eth.UniswapSumVolumeMetaData, &eth.UniswapSumVolumeABI, eth.NewUniswapSumVolume, eth.NewUniswapSumVolumeCaller, eth.NewUniswapSumVolumeTransactor, eth.NewUniswapSumVolumeFilterer, eth.DeployUniswapSumVolume,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.UniswapSumVolume)
			return []any{&eth.UniswapSumVolumeSession{v, c, t}, &eth.UniswapSumVolumeCallerSession{&v.UniswapSumVolumeCaller, c}, &eth.UniswapSumVolumeTransactorSession{&v.UniswapSumVolumeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.UniswapSumVolume)
			return []any{&eth.UniswapSumVolumeRaw{v}, &eth.UniswapSumVolumeCallerRaw{&v.UniswapSumVolumeCaller}, &eth.UniswapSumVolumeTransactorRaw{&v.UniswapSumVolumeTransactor}}
		}},
	{"eth.UnsafeMath", eth.UnsafeMathMetaData, &eth.UnsafeMathABI, eth.NewUnsafeMath, eth.NewUnsafeMathCaller, eth.NewUnsafeMathTransactor, eth.NewUnsafeMathFilterer, eth.DeployUnsafeMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.UnsafeMath)
			return []any{&eth.UnsafeMathSession{v, c, t}, &eth.UnsafeMathCallerSession{&v.UnsafeMathCaller, c}, &eth.UnsafeMathTransactorSession{&v.UnsafeMathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.UnsafeMath)
			return []any{&eth.UnsafeMathRaw{v}, &eth.UnsafeMathCallerRaw{&v.UnsafeMathCaller}, &eth.UnsafeMathTransactorRaw{&v.UnsafeMathTransactor}}
		}},
	{"eth.Utils", eth.UtilsMetaData, &eth.UtilsABI, eth.NewUtils, eth.NewUtilsCaller, eth.NewUtilsTransactor, eth.NewUtilsFilterer, eth.DeployUtils,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*eth.Utils)
			return []any{&eth.UtilsSession{v, c, t}, &eth.UtilsCallerSession{&v.UtilsCaller, c}, &eth.UtilsTransactorSession{&v.UtilsTransactor, t}}
		},
		func(x any) []any {
			v := x.(*eth.Utils)
			return []any{&eth.UtilsRaw{v}, &eth.UtilsCallerRaw{&v.UtilsCaller}, &eth.UtilsTransactorRaw{&v.UtilsTransactor}}
		}},
	{"bsc.BSCValidatorSet", bsc.BSCValidatorSetMetaData, &bsc.BSCValidatorSetABI, bsc.NewBSCValidatorSet, bsc.NewBSCValidatorSetCaller, bsc.NewBSCValidatorSetTransactor, bsc.NewBSCValidatorSetFilterer, bsc.DeployBSCValidatorSet,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.BSCValidatorSet)
			return []any{&bsc.BSCValidatorSetSession{v, c, t}, &bsc.BSCValidatorSetCallerSession{&v.BSCValidatorSetCaller, c}, &bsc.BSCValidatorSetTransactorSession{&v.BSCValidatorSetTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.BSCValidatorSet)
			return []any{&bsc.BSCValidatorSetRaw{v}, &bsc.BSCValidatorSetCallerRaw{&v.BSCValidatorSetCaller}, &bsc.BSCValidatorSetTransactorRaw{&v.BSCValidatorSetTransactor}}
		}},
	{"bsc.BatchEntry", bsc.BatchEntryMetaData, &bsc.BatchEntryABI, bsc.NewBatchEntry, bsc.NewBatchEntryCaller, bsc.NewBatchEntryTransactor, bsc.NewBatchEntryFilterer, bsc.DeployBatchEntry,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.BatchEntry)
			return []any{&bsc.BatchEntrySession{v, c, t}, &bsc.BatchEntryCallerSession{&v.BatchEntryCaller, c}, &bsc.BatchEntryTransactorSession{&v.BatchEntryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.BatchEntry)
			return []any{&bsc.BatchEntryRaw{v}, &bsc.BatchEntryCallerRaw{&v.BatchEntryCaller}, &bsc.BatchEntryTransactorRaw{&v.BatchEntryTransactor}}
		}},
	{"bsc.BatchProof", bsc.BatchProofMetaData, &bsc.BatchProofABI, bsc.NewBatchProof, bsc.NewBatchProofCaller, bsc.NewBatchProofTransactor, bsc.NewBatchProofFilterer, bsc.DeployBatchProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.BatchProof)
			return []any{&bsc.BatchProofSession{v, c, t}, &bsc.BatchProofCallerSession{&v.BatchProofCaller, c}, &bsc.BatchProofTransactorSession{&v.BatchProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.BatchProof)
			return []any{&bsc.BatchProofRaw{v}, &bsc.BatchProofCallerRaw{&v.BatchProofCaller}, &bsc.BatchProofTransactorRaw{&v.BatchProofTransactor}}
		}},
	{"bsc.BlockID", bsc.BlockIDMetaData, &bsc.BlockIDABI, bsc.NewBlockID, bsc.NewBlockIDCaller, bsc.NewBlockIDTransactor, bsc.NewBlockIDFilterer, bsc.DeployBlockID,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.BlockID)
			return []any{&bsc.BlockIDSession{v, c, t}, &bsc.BlockIDCallerSession{&v.BlockIDCaller, c}, &bsc.BlockIDTransactorSession{&v.BlockIDTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.BlockID)
			return []any{&bsc.BlockIDRaw{v}, &bsc.BlockIDCallerRaw{&v.BlockIDCaller}, &bsc.BlockIDTransactorRaw{&v.BlockIDTransactor}}
		}},
	{"bsc.Bytes", bsc.BytesMetaData, &bsc.BytesABI, bsc.NewBytes, bsc.NewBytesCaller, bsc.NewBytesTransactor, bsc.NewBytesFilterer, bsc.DeployBytes,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Bytes)
			return []any{&bsc.BytesSession{v, c, t}, &bsc.BytesCallerSession{&v.BytesCaller, c}, &bsc.BytesTransactorSession{&v.BytesTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Bytes)
			return []any{&bsc.BytesRaw{v}, &bsc.BytesCallerRaw{&v.BytesCaller}, &bsc.BytesTransactorRaw{&v.BytesTransactor}}
		}},
	{"bsc.BytesLib", bsc.BytesLibMetaData, &bsc.BytesLibABI, bsc.NewBytesLib, bsc.NewBytesLibCaller, bsc.NewBytesLibTransactor, bsc.NewBytesLibFilterer, bsc.DeployBytesLib,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.BytesLib)
			return []any{&bsc.BytesLibSession{v, c, t}, &bsc.BytesLibCallerSession{&v.BytesLibCaller, c}, &bsc.BytesLibTransactorSession{&v.BytesLibTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.BytesLib)
			return []any{&bsc.BytesLibRaw{v}, &bsc.BytesLibCallerRaw{&v.BytesLibCaller}, &bsc.BytesLibTransactorRaw{&v.BytesLibTransactor}}
		}},
	{"bsc.CanonicalBlockID", bsc.CanonicalBlockIDMetaData, &bsc.CanonicalBlockIDABI, bsc.NewCanonicalBlockID, bsc.NewCanonicalBlockIDCaller, bsc.NewCanonicalBlockIDTransactor, bsc.NewCanonicalBlockIDFilterer, bsc.DeployCanonicalBlockID,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CanonicalBlockID)
			return []any{&bsc.CanonicalBlockIDSession{v, c, t}, &bsc.CanonicalBlockIDCallerSession{&v.CanonicalBlockIDCaller, c}, &bsc.CanonicalBlockIDTransactorSession{&v.CanonicalBlockIDTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CanonicalBlockID)
			return []any{&bsc.CanonicalBlockIDRaw{v}, &bsc.CanonicalBlockIDCallerRaw{&v.CanonicalBlockIDCaller}, &bsc.CanonicalBlockIDTransactorRaw{&v.CanonicalBlockIDTransactor}}
		}},
	{"bsc.CanonicalPartSetHeader", bsc.CanonicalPartSetHeaderMetaData, &bsc.CanonicalPartSetHeaderABI, bsc.NewCanonicalPartSetHeader, bsc.NewCanonicalPartSetHeaderCaller, bsc.NewCanonicalPartSetHeaderTransactor, bsc.NewCanonicalPartSetHeaderFilterer, bsc.DeployCanonicalPartSetHeader,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CanonicalPartSetHeader)
			return []any{&bsc.CanonicalPartSetHeaderSession{v, c, t}, &bsc.CanonicalPartSetHeaderCallerSession{&v.CanonicalPartSetHeaderCaller, c}, &bsc.CanonicalPartSetHeaderTransactorSession{&v.CanonicalPartSetHeaderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CanonicalPartSetHeader)
			return []any{&bsc.CanonicalPartSetHeaderRaw{v}, &bsc.CanonicalPartSetHeaderCallerRaw{&v.CanonicalPartSetHeaderCaller}, &bsc.CanonicalPartSetHeaderTransactorRaw{&v.CanonicalPartSetHeaderTransactor}}
		}},
	{"bsc.CanonicalVote", bsc.CanonicalVoteMetaData, &bsc.CanonicalVoteABI, bsc.NewCanonicalVote, bsc.NewCanonicalVoteCaller, bsc.NewCanonicalVoteTransactor, bsc.NewCanonicalVoteFilterer, bsc.DeployCanonicalVote,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CanonicalVote)
			return []any{&bsc.CanonicalVoteSession{v, c, t}, &bsc.CanonicalVoteCallerSession{&v.CanonicalVoteCaller, c}, &bsc.CanonicalVoteTransactorSession{&v.CanonicalVoteTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CanonicalVote)
			return []any{&bsc.CanonicalVoteRaw{v}, &bsc.CanonicalVoteCallerRaw{&v.CanonicalVoteCaller}, &bsc.CanonicalVoteTransactorRaw{&v.CanonicalVoteTransactor}}
		}},
	{"bsc.ClientState", bsc.ClientStateMetaData, &bsc.ClientStateABI, bsc.NewClientState, bsc.NewClientStateCaller, bsc.NewClientStateTransactor, bsc.NewClientStateFilterer, bsc.DeployClientState,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ClientState)
			return []any{&bsc.ClientStateSession{v, c, t}, &bsc.ClientStateCallerSession{&v.ClientStateCaller, c}, &bsc.ClientStateTransactorSession{&v.ClientStateTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ClientState)
			return []any{&bsc.ClientStateRaw{v}, &bsc.ClientStateCallerRaw{&v.ClientStateCaller}, &bsc.ClientStateTransactorRaw{&v.ClientStateTransactor}}
		}},
	{"bsc.CmnPkg", bsc.CmnPkgMetaData, &bsc.CmnPkgABI, bsc.NewCmnPkg, bsc.NewCmnPkgCaller, bsc.NewCmnPkgTransactor, bsc.NewCmnPkgFilterer, bsc.DeployCmnPkg,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CmnPkg)
			return []any{&bsc.CmnPkgSession{v, c, t}, &bsc.CmnPkgCallerSession{&v.CmnPkgCaller, c}, &bsc.CmnPkgTransactorSession{&v.CmnPkgTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CmnPkg)
			return []any{&bsc.CmnPkgRaw{v}, &bsc.CmnPkgCallerRaw{&v.CmnPkgCaller}, &bsc.CmnPkgTransactorRaw{&v.CmnPkgTransactor}}
		}},
	{"bsc.Commit", bsc.CommitMetaData, &bsc.CommitABI, bsc.NewCommit, bsc.NewCommitCaller, bsc.NewCommitTransactor, bsc.NewCommitFilterer, bsc.DeployCommit,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Commit)
			return []any{&bsc.CommitSession{v, c, t}, &bsc.CommitCallerSession{&v.CommitCaller, c}, &bsc.CommitTransactorSession{&v.CommitTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Commit)
			return []any{&bsc.CommitRaw{v}, &bsc.CommitCallerRaw{&v.CommitCaller}, &bsc.CommitTransactorRaw{&v.CommitTransactor}}
		}},
	{"bsc.CommitSig", bsc.CommitSigMetaData, &bsc.CommitSigABI, bsc.NewCommitSig, bsc.NewCommitSigCaller, bsc.NewCommitSigTransactor, bsc.NewCommitSigFilterer, bsc.DeployCommitSig,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CommitSig)
			return []any{&bsc.CommitSigSession{v, c, t}, &bsc.CommitSigCallerSession{&v.CommitSigCaller, c}, &bsc.CommitSigTransactorSession{&v.CommitSigTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CommitSig)
			return []any{&bsc.CommitSigRaw{v}, &bsc.CommitSigCallerRaw{&v.CommitSigCaller}, &bsc.CommitSigTransactorRaw{&v.CommitSigTransactor}}
		}},
	{"bsc.CommitmentProof", bsc.CommitmentProofMetaData, &bsc.CommitmentProofABI, bsc.NewCommitmentProof, bsc.NewCommitmentProofCaller, bsc.NewCommitmentProofTransactor, bsc.NewCommitmentProofFilterer, bsc.DeployCommitmentProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CommitmentProof)
			return []any{&bsc.CommitmentProofSession{v, c, t}, &bsc.CommitmentProofCallerSession{&v.CommitmentProofCaller, c}, &bsc.CommitmentProofTransactorSession{&v.CommitmentProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CommitmentProof)
			return []any{&bsc.CommitmentProofRaw{v}, &bsc.CommitmentProofCallerRaw{&v.CommitmentProofCaller}, &bsc.CommitmentProofTransactorRaw{&v.CommitmentProofTransactor}}
		}},
	{"bsc.Compress", bsc.CompressMetaData, &bsc.CompressABI, bsc.NewCompress, bsc.NewCompressCaller, bsc.NewCompressTransactor, bsc.NewCompressFilterer, bsc.DeployCompress,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Compress)
			return []any{&bsc.CompressSession{v, c, t}, &bsc.CompressCallerSession{&v.CompressCaller, c}, &bsc.CompressTransactorSession{&v.CompressTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Compress)
			return []any{&bsc.CompressRaw{v}, &bsc.CompressCallerRaw{&v.CompressCaller}, &bsc.CompressTransactorRaw{&v.CompressTransactor}}
		}},
	{"bsc.CompressedBatchEntry", bsc.CompressedBatchEntryMetaData, &bsc.CompressedBatchEntryABI, bsc.NewCompressedBatchEntry, bsc.NewCompressedBatchEntryCaller, bsc.NewCompressedBatchEntryTransactor, bsc.NewCompressedBatchEntryFilterer, bsc.DeployCompressedBatchEntry,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CompressedBatchEntry)
			return []any{&bsc.CompressedBatchEntrySession{v, c, t}, &bsc.CompressedBatchEntryCallerSession{&v.CompressedBatchEntryCaller, c}, &bsc.CompressedBatchEntryTransactorSession{&v.CompressedBatchEntryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CompressedBatchEntry)
			return []any{&bsc.CompressedBatchEntryRaw{v}, &bsc.CompressedBatchEntryCallerRaw{&v.CompressedBatchEntryCaller}, &bsc.CompressedBatchEntryTransactorRaw{&v.CompressedBatchEntryTransactor}}
		}},
	{"bsc.CompressedBatchProof", bsc.CompressedBatchProofMetaData, &bsc.CompressedBatchProofABI, bsc.NewCompressedBatchProof, bsc.NewCompressedBatchProofCaller, bsc.NewCompressedBatchProofTransactor, bsc.NewCompressedBatchProofFilterer, bsc.DeployCompressedBatchProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CompressedBatchProof)
			return []any{&bsc.CompressedBatchProofSession{v, c, t}, &bsc.CompressedBatchProofCallerSession{&v.CompressedBatchProofCaller, c}, &bsc.CompressedBatchProofTransactorSession{&v.CompressedBatchProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CompressedBatchProof)
			return []any{&bsc.CompressedBatchProofRaw{v}, &bsc.CompressedBatchProofCallerRaw{&v.CompressedBatchProofCaller}, &bsc.CompressedBatchProofTransactorRaw{&v.CompressedBatchProofTransactor}}
		}},
	{"bsc.CompressedExistenceProof", bsc.CompressedExistenceProofMetaData, &bsc.CompressedExistenceProofABI, bsc.NewCompressedExistenceProof, bsc.NewCompressedExistenceProofCaller, bsc.NewCompressedExistenceProofTransactor, bsc.NewCompressedExistenceProofFilterer, bsc.DeployCompressedExistenceProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CompressedExistenceProof)
			return []any{&bsc.CompressedExistenceProofSession{v, c, t}, &bsc.CompressedExistenceProofCallerSession{&v.CompressedExistenceProofCaller, c}, &bsc.CompressedExistenceProofTransactorSession{&v.CompressedExistenceProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CompressedExistenceProof)
			return []any{&bsc.CompressedExistenceProofRaw{v}, &bsc.CompressedExistenceProofCallerRaw{&v.CompressedExistenceProofCaller}, &bsc.CompressedExistenceProofTransactorRaw{&v.CompressedExistenceProofTransactor}}
		}},
	{"bsc.CompressedNonExistenceProof", bsc.CompressedNonExistenceProofMetaData, &bsc.CompressedNonExistenceProofABI, bsc.NewCompressedNonExistenceProof, bsc.NewCompressedNonExistenceProofCaller, bsc.NewCompressedNonExistenceProofTransactor, bsc.NewCompressedNonExistenceProofFilterer, bsc.DeployCompressedNonExistenceProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CompressedNonExistenceProof)
			return []any{&bsc.CompressedNonExistenceProofSession{v, c, t}, &bsc.CompressedNonExistenceProofCallerSession{&v.CompressedNonExistenceProofCaller, c}, &bsc.CompressedNonExistenceProofTransactorSession{&v.CompressedNonExistenceProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CompressedNonExistenceProof)
			return []any{&bsc.CompressedNonExistenceProofRaw{v}, &bsc.CompressedNonExistenceProofCallerRaw{&v.CompressedNonExistenceProofCaller}, &bsc.CompressedNonExistenceProofTransactorRaw{&v.CompressedNonExistenceProofTransactor}}
		}},
	{"bsc.Consensus", bsc.ConsensusMetaData, &bsc.ConsensusABI, bsc.NewConsensus, bsc.NewConsensusCaller, bsc.NewConsensusTransactor, bsc.NewConsensusFilterer, bsc.DeployConsensus,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Consensus)
			return []any{&bsc.ConsensusSession{v, c, t}, &bsc.ConsensusCallerSession{&v.ConsensusCaller, c}, &bsc.ConsensusTransactorSession{&v.ConsensusTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Consensus)
			return []any{&bsc.ConsensusRaw{v}, &bsc.ConsensusCallerRaw{&v.ConsensusCaller}, &bsc.ConsensusTransactorRaw{&v.ConsensusTransactor}}
		}},
	{"bsc.ConsensusState", bsc.ConsensusStateMetaData, &bsc.ConsensusStateABI, bsc.NewConsensusState, bsc.NewConsensusStateCaller, bsc.NewConsensusStateTransactor, bsc.NewConsensusStateFilterer, bsc.DeployConsensusState,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ConsensusState)
			return []any{&bsc.ConsensusStateSession{v, c, t}, &bsc.ConsensusStateCallerSession{&v.ConsensusStateCaller, c}, &bsc.ConsensusStateTransactorSession{&v.ConsensusStateTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ConsensusState)
			return []any{&bsc.ConsensusStateRaw{v}, &bsc.ConsensusStateCallerRaw{&v.ConsensusStateCaller}, &bsc.ConsensusStateTransactorRaw{&v.ConsensusStateTransactor}}
		}},
	{"bsc.Context", bsc.ContextMetaData, &bsc.ContextABI, bsc.NewContext, bsc.NewContextCaller, bsc.NewContextTransactor, bsc.NewContextFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Context)
			return []any{&bsc.ContextSession{v, c, t}, &bsc.ContextCallerSession{&v.ContextCaller, c}, &bsc.ContextTransactorSession{&v.ContextTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Context)
			return []any{&bsc.ContextRaw{v}, &bsc.ContextCallerRaw{&v.ContextCaller}, &bsc.ContextTransactorRaw{&v.ContextTransactor}}
		}},
	{"bsc.CrossChain", bsc.CrossChainMetaData, &bsc.CrossChainABI, bsc.NewCrossChain, bsc.NewCrossChainCaller, bsc.NewCrossChainTransactor, bsc.NewCrossChainFilterer, bsc.DeployCrossChain,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.CrossChain)
			return []any{&bsc.CrossChainSession{v, c, t}, &bsc.CrossChainCallerSession{&v.CrossChainCaller, c}, &bsc.CrossChainTransactorSession{&v.CrossChainTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.CrossChain)
			return []any{&bsc.CrossChainRaw{v}, &bsc.CrossChainCallerRaw{&v.CrossChainCaller}, &bsc.CrossChainTransactorRaw{&v.CrossChainTransactor}}
		}},
	{"bsc.Duration", bsc.DurationMetaData, &bsc.DurationABI, bsc.NewDuration, bsc.NewDurationCaller, bsc.NewDurationTransactor, bsc.NewDurationFilterer, bsc.DeployDuration,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Duration)
			return []any{&bsc.DurationSession{v, c, t}, &bsc.DurationCallerSession{&v.DurationCaller, c}, &bsc.DurationTransactorSession{&v.DurationTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Duration)
			return []any{&bsc.DurationRaw{v}, &bsc.DurationCallerRaw{&v.DurationCaller}, &bsc.DurationTransactorRaw{&v.DurationTransactor}}
		}},
	{"bsc.ECDSA", bsc.ECDSAMetaData, &bsc.ECDSAABI, bsc.NewECDSA, bsc.NewECDSACaller, bsc.NewECDSATransactor, bsc.NewECDSAFilterer, bsc.DeployECDSA,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ECDSA)
			return []any{&bsc.ECDSASession{v, c, t}, &bsc.ECDSACallerSession{&v.ECDSACaller, c}, &bsc.ECDSATransactorSession{&v.ECDSATransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ECDSA)
			return []any{&bsc.ECDSARaw{v}, &bsc.ECDSACallerRaw{&v.ECDSACaller}, &bsc.ECDSATransactorRaw{&v.ECDSATransactor}}
		}},
	{"bsc.Ed25519Verifier", bsc.Ed25519VerifierMetaData, &bsc.Ed25519VerifierABI, bsc.NewEd25519Verifier, bsc.NewEd25519VerifierCaller, bsc.NewEd25519VerifierTransactor, bsc.NewEd25519VerifierFilterer, bsc.DeployEd25519Verifier,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Ed25519Verifier)
			return []any{&bsc.Ed25519VerifierSession{v, c, t}, &bsc.Ed25519VerifierCallerSession{&v.Ed25519VerifierCaller, c}, &bsc.Ed25519VerifierTransactorSession{&v.Ed25519VerifierTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Ed25519Verifier)
			return []any{&bsc.Ed25519VerifierRaw{v}, &bsc.Ed25519VerifierCallerRaw{&v.Ed25519VerifierCaller}, &bsc.Ed25519VerifierTransactorRaw{&v.Ed25519VerifierTransactor}}
		}},
	{"bsc.Encoder", bsc.EncoderMetaData, &bsc.EncoderABI, bsc.NewEncoder, bsc.NewEncoderCaller, bsc.NewEncoderTransactor, bsc.NewEncoderFilterer, bsc.DeployEncoder,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Encoder)
			return []any{&bsc.EncoderSession{v, c, t}, &bsc.EncoderCallerSession{&v.EncoderCaller, c}, &bsc.EncoderTransactorSession{&v.EncoderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Encoder)
			return []any{&bsc.EncoderRaw{v}, &bsc.EncoderCallerRaw{&v.EncoderCaller}, &bsc.EncoderTransactorRaw{&v.EncoderTransactor}}
		}},
	{"bsc.ExistenceProof", bsc.ExistenceProofMetaData, &bsc.ExistenceProofABI, bsc.NewExistenceProof, bsc.NewExistenceProofCaller, bsc.NewExistenceProofTransactor, bsc.NewExistenceProofFilterer, bsc.DeployExistenceProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ExistenceProof)
			return []any{&bsc.ExistenceProofSession{v, c, t}, &bsc.ExistenceProofCallerSession{&v.ExistenceProofCaller, c}, &bsc.ExistenceProofTransactorSession{&v.ExistenceProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ExistenceProof)
			return []any{&bsc.ExistenceProofRaw{v}, &bsc.ExistenceProofCallerRaw{&v.ExistenceProofCaller}, &bsc.ExistenceProofTransactorRaw{&v.ExistenceProofTransactor}}
		}},
	{"bsc.Fraction", bsc.FractionMetaData, &bsc.FractionABI, bsc.NewFraction, bsc.NewFractionCaller, bsc.NewFractionTransactor, bsc.NewFractionFilterer, bsc.DeployFraction,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Fraction)
			return []any{&bsc.FractionSession{v, c, t}, &bsc.FractionCallerSession{&v.FractionCaller, c}, &bsc.FractionTransactorSession{&v.FractionTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Fraction)
			return []any{&bsc.FractionRaw{v}, &bsc.FractionCallerRaw{&v.FractionCaller}, &bsc.FractionTransactorRaw{&v.FractionTransactor}}
		}},
	{"bsc.GoogleProtobufAny", bsc.GoogleProtobufAnyMetaData, &bsc.GoogleProtobufAnyABI, bsc.NewGoogleProtobufAny, bsc.NewGoogleProtobufAnyCaller, bsc.NewGoogleProtobufAnyTransactor, bsc.NewGoogleProtobufAnyFilterer, bsc.DeployGoogleProtobufAny,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.GoogleProtobufAny)
			return []any{&bsc.GoogleProtobufAnySession{v, c, t}, &bsc.GoogleProtobufAnyCallerSession{&v.GoogleProtobufAnyCaller, c}, &bsc.GoogleProtobufAnyTransactorSession{&v.GoogleProtobufAnyTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.GoogleProtobufAny)
			return []any{&bsc.GoogleProtobufAnyRaw{v}, &bsc.GoogleProtobufAnyCallerRaw{&v.GoogleProtobufAnyCaller}, &bsc.GoogleProtobufAnyTransactorRaw{&v.GoogleProtobufAnyTransactor}}
		}},
	{"bsc.IApplication", bsc.IApplicationMetaData, &bsc.IApplicationABI, bsc.NewIApplication, bsc.NewIApplicationCaller, bsc.NewIApplicationTransactor, bsc.NewIApplicationFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.IApplication)
			return []any{&bsc.IApplicationSession{v, c, t}, &bsc.IApplicationCallerSession{&v.IApplicationCaller, c}, &bsc.IApplicationTransactorSession{&v.IApplicationTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.IApplication)
			return []any{&bsc.IApplicationRaw{v}, &bsc.IApplicationCallerRaw{&v.IApplicationCaller}, &bsc.IApplicationTransactorRaw{&v.IApplicationTransactor}}
		}},
	{"bsc.IBSCValidatorSet", bsc.IBSCValidatorSetMetaData, &bsc.IBSCValidatorSetABI, bsc.NewIBSCValidatorSet, bsc.NewIBSCValidatorSetCaller, bsc.NewIBSCValidatorSetTransactor, bsc.NewIBSCValidatorSetFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.IBSCValidatorSet)
			return []any{&bsc.IBSCValidatorSetSession{v, c, t}, &bsc.IBSCValidatorSetCallerSession{&v.IBSCValidatorSetCaller, c}, &bsc.IBSCValidatorSetTransactorSession{&v.IBSCValidatorSetTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.IBSCValidatorSet)
			return []any{&bsc.IBSCValidatorSetRaw{v}, &bsc.IBSCValidatorSetCallerRaw{&v.IBSCValidatorSetCaller}, &bsc.IBSCValidatorSetTransactorRaw{&v.IBSCValidatorSetTransactor}}
		}},
	{"bsc.ICrossChain", bsc.ICrossChainMetaData, &bsc.ICrossChainABI, bsc.NewICrossChain, bsc.NewICrossChainCaller, bsc.NewICrossChainTransactor, bsc.NewICrossChainFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ICrossChain)
			return []any{&bsc.ICrossChainSession{v, c, t}, &bsc.ICrossChainCallerSession{&v.ICrossChainCaller, c}, &bsc.ICrossChainTransactorSession{&v.ICrossChainTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ICrossChain)
			return []any{&bsc.ICrossChainRaw{v}, &bsc.ICrossChainCallerRaw{&v.ICrossChainCaller}, &bsc.ICrossChainTransactorRaw{&v.ICrossChainTransactor}}
		}},
	{"bsc.IEthereumLightClient", bsc.IEthereumLightClientMetaData, &bsc.IEthereumLightClientABI, bsc.NewIEthereumLightClient, bsc.NewIEthereumLightClientCaller, bsc.NewIEthereumLightClientTransactor, bsc.NewIEthereumLightClientFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.IEthereumLightClient)
			return []any{&bsc.IEthereumLightClientSession{v, c, t}, &bsc.IEthereumLightClientCallerSession{&v.IEthereumLightClientCaller, c}, &bsc.IEthereumLightClientTransactorSession{&v.IEthereumLightClientTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.IEthereumLightClient)
			return []any{&bsc.IEthereumLightClientRaw{v}, &bsc.IEthereumLightClientCallerRaw{&v.IEthereumLightClientCaller}, &bsc.IEthereumLightClientTransactorRaw{&v.IEthereumLightClientTransactor}}
		}},
	{"bsc.ITendermintLightClient", bsc.ITendermintLightClientMetaData, &bsc.ITendermintLightClientABI, bsc.NewITendermintLightClient, bsc.NewITendermintLightClientCaller, bsc.NewITendermintLightClientTransactor, bsc.NewITendermintLightClientFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ITendermintLightClient)
			return []any{&bsc.ITendermintLightClientSession{v, c, t}, &bsc.ITendermintLightClientCallerSession{&v.ITendermintLightClientCaller, c}, &bsc.ITendermintLightClientTransactorSession{&v.ITendermintLightClientTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ITendermintLightClient)
			return []any{&bsc.ITendermintLightClientRaw{v}, &bsc.ITendermintLightClientCallerRaw{&v.ITendermintLightClientCaller}, &bsc.ITendermintLightClientTransactorRaw{&v.ITendermintLightClientTransactor}}
		}},
	{"bsc.Ics23", bsc.Ics23MetaData, &bsc.Ics23ABI, bsc.NewIcs23, bsc.NewIcs23Caller, bsc.NewIcs23Transactor, bsc.NewIcs23Filterer, bsc.DeployIcs23,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Ics23)
			return []any{&bsc.Ics23Session{v, c, t}, &bsc.Ics23CallerSession{&v.Ics23Caller, c}, &bsc.Ics23TransactorSession{&v.Ics23Transactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Ics23)
			return []any{&bsc.Ics23Raw{v}, &bsc.Ics23CallerRaw{&v.Ics23Caller}, &bsc.Ics23TransactorRaw{&v.Ics23Transactor}}
		}},
	{"bsc.Initializable", bsc.InitializableMetaData, &bsc.InitializableABI, bsc.NewInitializable, bsc.NewInitializableCaller, bsc.NewInitializableTransactor, bsc.NewInitializableFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Initializable)
			return []any{&bsc.InitializableSession{v, c, t}, &bsc.InitializableCallerSession{&v.InitializableCaller, c}, &bsc.InitializableTransactorSession{&v.InitializableTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Initializable)
			return []any{&bsc.InitializableRaw{v}, &bsc.InitializableCallerRaw{&v.InitializableCaller}, &bsc.InitializableTransactorRaw{&v.InitializableTransactor}}
		}},
	{"bsc.InnerOp", bsc.InnerOpMetaData, &bsc.InnerOpABI, bsc.NewInnerOp, bsc.NewInnerOpCaller, bsc.NewInnerOpTransactor, bsc.NewInnerOpFilterer, bsc.DeployInnerOp,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.InnerOp)
			return []any{&bsc.InnerOpSession{v, c, t}, &bsc.InnerOpCallerSession{&v.InnerOpCaller, c}, &bsc.InnerOpTransactorSession{&v.InnerOpTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.InnerOp)
			return []any{&bsc.InnerOpRaw{v}, &bsc.InnerOpCallerRaw{&v.InnerOpCaller}, &bsc.InnerOpTransactorRaw{&v.InnerOpTransactor}}
		}},
	{"bsc.InnerSpec", bsc.InnerSpecMetaData, &bsc.InnerSpecABI, bsc.NewInnerSpec, bsc.NewInnerSpecCaller, bsc.NewInnerSpecTransactor, bsc.NewInnerSpecFilterer, bsc.DeployInnerSpec,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.InnerSpec)
			return []any{&bsc.InnerSpecSession{v, c, t}, &bsc.InnerSpecCallerSession{&v.InnerSpecCaller, c}, &bsc.InnerSpecTransactorSession{&v.InnerSpecTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.InnerSpec)
			return []any{&bsc.InnerSpecRaw{v}, &bsc.InnerSpecCallerRaw{&v.InnerSpecCaller}, &bsc.InnerSpecTransactorRaw{&v.InnerSpecTransactor}}
		}},
	{"bsc.LeafOp", bsc.LeafOpMetaData, &bsc.LeafOpABI, bsc.NewLeafOp, bsc.NewLeafOpCaller, bsc.NewLeafOpTransactor, bsc.NewLeafOpFilterer, bsc.DeployLeafOp,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.LeafOp)
			return []any{&bsc.LeafOpSession{v, c, t}, &bsc.LeafOpCallerSession{&v.LeafOpCaller, c}, &bsc.LeafOpTransactorSession{&v.LeafOpTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.LeafOp)
			return []any{&bsc.LeafOpRaw{v}, &bsc.LeafOpCallerRaw{&v.LeafOpCaller}, &bsc.LeafOpTransactorRaw{&v.LeafOpTransactor}}
		}},
	{"bsc.LightHeader", bsc.LightHeaderMetaData, &bsc.LightHeaderABI, bsc.NewLightHeader, bsc.NewLightHeaderCaller, bsc.NewLightHeaderTransactor, bsc.NewLightHeaderFilterer, bsc.DeployLightHeader,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.LightHeader)
			return []any{&bsc.LightHeaderSession{v, c, t}, &bsc.LightHeaderCallerSession{&v.LightHeaderCaller, c}, &bsc.LightHeaderTransactorSession{&v.LightHeaderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.LightHeader)
			return []any{&bsc.LightHeaderRaw{v}, &bsc.LightHeaderCallerRaw{&v.LightHeaderCaller}, &bsc.LightHeaderTransactorRaw{&v.LightHeaderTransactor}}
		}},
	{"bsc.Math", bsc.MathMetaData, &bsc.MathABI, bsc.NewMath, bsc.NewMathCaller, bsc.NewMathTransactor, bsc.NewMathFilterer, bsc.DeployMath,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Math)
			return []any{&bsc.MathSession{v, c, t}, &bsc.MathCallerSession{&v.MathCaller, c}, &bsc.MathTransactorSession{&v.MathTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Math)
			return []any{&bsc.MathRaw{v}, &bsc.MathCallerRaw{&v.MathCaller}, &bsc.MathTransactorRaw{&v.MathTransactor}}
		}},
	{"bsc.Memory", bsc.MemoryMetaData, &bsc.MemoryABI, bsc.NewMemory, bsc.NewMemoryCaller, bsc.NewMemoryTransactor, bsc.NewMemoryFilterer, bsc.DeployMemory,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Memory)
			return []any{&bsc.MemorySession{v, c, t}, &bsc.MemoryCallerSession{&v.MemoryCaller, c}, &bsc.MemoryTransactorSession{&v.MemoryTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Memory)
			return []any{&bsc.MemoryRaw{v}, &bsc.MemoryCallerRaw{&v.MemoryCaller}, &bsc.MemoryTransactorRaw{&v.MemoryTransactor}}
		}},
	{"bsc.MerkleRoot", bsc.MerkleRootMetaData, &bsc.MerkleRootABI, bsc.NewMerkleRoot, bsc.NewMerkleRootCaller, bsc.NewMerkleRootTransactor, bsc.NewMerkleRootFilterer, bsc.DeployMerkleRoot,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.MerkleRoot)
			return []any{&bsc.MerkleRootSession{v, c, t}, &bsc.MerkleRootCallerSession{&v.MerkleRootCaller, c}, &bsc.MerkleRootTransactorSession{&v.MerkleRootTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.MerkleRoot)
			return []any{&bsc.MerkleRootRaw{v}, &bsc.MerkleRootCallerRaw{&v.MerkleRootCaller}, &bsc.MerkleRootTransactorRaw{&v.MerkleRootTransactor}}
		}},
	{"bsc.MerkleTree", bsc.MerkleTreeMetaData, &bsc.MerkleTreeABI, bsc.NewMerkleTree, bsc.NewMerkleTreeCaller, bsc.NewMerkleTreeTransactor, bsc.NewMerkleTreeFilterer, bsc.DeployMerkleTree,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.MerkleTree)
			return []any{&bsc.MerkleTreeSession{v, c, t}, &bsc.MerkleTreeCallerSession{&v.MerkleTreeCaller, c}, &bsc.MerkleTreeTransactorSession{&v.MerkleTreeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.MerkleTree)
			return []any{&bsc.MerkleTreeRaw{v}, &bsc.MerkleTreeCallerRaw{&v.MerkleTreeCaller}, &bsc.MerkleTreeTransactorRaw{&v.MerkleTreeTransactor}}
		}},
	{"bsc.NonExistenceProof", bsc.NonExistenceProofMetaData, &bsc.NonExistenceProofABI, bsc.NewNonExistenceProof, bsc.NewNonExistenceProofCaller, bsc.NewNonExistenceProofTransactor, bsc.NewNonExistenceProofFilterer, bsc.DeployNonExistenceProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.NonExistenceProof)
			return []any{&bsc.NonExistenceProofSession{v, c, t}, &bsc.NonExistenceProofCallerSession{&v.NonExistenceProofCaller, c}, &bsc.NonExistenceProofTransactorSession{&v.NonExistenceProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.NonExistenceProof)
			return []any{&bsc.NonExistenceProofRaw{v}, &bsc.NonExistenceProofCallerRaw{&v.NonExistenceProofCaller}, &bsc.NonExistenceProofTransactorRaw{&v.NonExistenceProofTransactor}}
		}},
	{"bsc.Ops", bsc.OpsMetaData, &bsc.OpsABI, bsc.NewOps, bsc.NewOpsCaller, bsc.NewOpsTransactor, bsc.NewOpsFilterer, bsc.DeployOps,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Ops)
			return []any{&bsc.OpsSession{v, c, t}, &bsc.OpsCallerSession{&v.OpsCaller, c}, &bsc.OpsTransactorSession{&v.OpsTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Ops)
			return []any{&bsc.OpsRaw{v}, &bsc.OpsCallerRaw{&v.OpsCaller}, &bsc.OpsTransactorRaw{&v.OpsTransactor}}
		}},
	{"bsc.Ownable", bsc.OwnableMetaData, &bsc.OwnableABI, bsc.NewOwnable, bsc.NewOwnableCaller, bsc.NewOwnableTransactor, bsc.NewOwnableFilterer, nil,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Ownable)
			return []any{&bsc.OwnableSession{v, c, t}, &bsc.OwnableCallerSession{&v.OwnableCaller, c}, &bsc.OwnableTransactorSession{&v.OwnableTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Ownable)
			return []any{&bsc.OwnableRaw{v}, &bsc.OwnableCallerRaw{&v.OwnableCaller}, &bsc.OwnableTransactorRaw{&v.OwnableTransactor}}
		}},
	{"bsc.PROOFSPROTOGLOBALENUMS", bsc.PROOFSPROTOGLOBALENUMSMetaData, &bsc.PROOFSPROTOGLOBALENUMSABI, bsc.NewPROOFSPROTOGLOBALENUMS, bsc.NewPROOFSPROTOGLOBALENUMSCaller, bsc.NewPROOFSPROTOGLOBALENUMSTransactor, bsc.NewPROOFSPROTOGLOBALENUMSFilterer, bsc.DeployPROOFSPROTOGLOBALENUMS,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.PROOFSPROTOGLOBALENUMS)
			return []any{&bsc.PROOFSPROTOGLOBALENUMSSession{v, c, t}, &bsc.PROOFSPROTOGLOBALENUMSCallerSession{&v.PROOFSPROTOGLOBALENUMSCaller, c}, &bsc.PROOFSPROTOGLOBALENUMSTransactorSession{&v.PROOFSPROTOGLOBALENUMSTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.PROOFSPROTOGLOBALENUMS)
			return []any{&bsc.PROOFSPROTOGLOBALENUMSRaw{v}, &bsc.PROOFSPROTOGLOBALENUMSCallerRaw{&v.PROOFSPROTOGLOBALENUMSCaller}, &bsc.PROOFSPROTOGLOBALENUMSTransactorRaw{&v.PROOFSPROTOGLOBALENUMSTransactor}}
		}},
	{"bsc.Pairing", bsc.PairingMetaData, &bsc.PairingABI, bsc.NewPairing, bsc.NewPairingCaller, bsc.NewPairingTransactor, bsc.NewPairingFilterer, bsc.DeployPairing,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Pairing)
			return []any{&bsc.PairingSession{v, c, t}, &bsc.PairingCallerSession{&v.PairingCaller, c}, &bsc.PairingTransactorSession{&v.PairingTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Pairing)
			return []any{&bsc.PairingRaw{v}, &bsc.PairingCallerRaw{&v.PairingCaller}, &bsc.PairingTransactorRaw{&v.PairingTransactor}}
		}},
	{"bsc.PartSetHeader", bsc.PartSetHeaderMetaData, &bsc.PartSetHeaderABI, bsc.NewPartSetHeader, bsc.NewPartSetHeaderCaller, bsc.NewPartSetHeaderTransactor, bsc.NewPartSetHeaderFilterer, bsc.DeployPartSetHeader,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.PartSetHeader)
			return []any{&bsc.PartSetHeaderSession{v, c, t}, &bsc.PartSetHeaderCallerSession{&v.PartSetHeaderCaller, c}, &bsc.PartSetHeaderTransactorSession{&v.PartSetHeaderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.PartSetHeader)
			return []any{&bsc.PartSetHeaderRaw{v}, &bsc.PartSetHeaderCallerRaw{&v.PartSetHeaderCaller}, &bsc.PartSetHeaderTransactorRaw{&v.PartSetHeaderTransactor}}
		}},
	{"bsc.PoALightClient", bsc.PoALightClientMetaData, &bsc.PoALightClientABI, bsc.NewPoALightClient, bsc.NewPoALightClientCaller, bsc.NewPoALightClientTransactor, bsc.NewPoALightClientFilterer, bsc.DeployPoALightClient,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.PoALightClient)
			return []any{&bsc.PoALightClientSession{v, c, t}, &bsc.PoALightClientCallerSession{&v.PoALightClientCaller, c}, &bsc.PoALightClientTransactorSession{&v.PoALightClientTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.PoALightClient)
			return []any{&bsc.PoALightClientRaw{v}, &bsc.PoALightClientCallerRaw{&v.PoALightClientCaller}, &bsc.PoALightClientTransactorRaw{&v.PoALightClientTransactor}}
		}},
	{"bsc.Proof", bsc.ProofMetaData, &bsc.ProofABI, bsc.NewProof, bsc.NewProofCaller, bsc.NewProofTransactor, bsc.NewProofFilterer, bsc.DeployProof,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Proof)
			return []any{&bsc.ProofSession{v, c, t}, &bsc.ProofCallerSession{&v.ProofCaller, c}, &bsc.ProofTransactorSession{&v.ProofTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Proof)
			return []any{&bsc.ProofRaw{v}, &bsc.ProofCallerRaw{&v.ProofCaller}, &bsc.ProofTransactorRaw{&v.ProofTransactor}}
		}},
	{"bsc.ProofSpec", bsc.ProofSpecMetaData, &bsc.ProofSpecABI, bsc.NewProofSpec, bsc.NewProofSpecCaller, bsc.NewProofSpecTransactor, bsc.NewProofSpecFilterer, bsc.DeployProofSpec,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ProofSpec)
			return []any{&bsc.ProofSpecSession{v, c, t}, &bsc.ProofSpecCallerSession{&v.ProofSpecCaller, c}, &bsc.ProofSpecTransactorSession{&v.ProofSpecTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ProofSpec)
			return []any{&bsc.ProofSpecRaw{v}, &bsc.ProofSpecCallerRaw{&v.ProofSpecCaller}, &bsc.ProofSpecTransactorRaw{&v.ProofSpecTransactor}}
		}},
	{"bsc.ProtoBufRuntime", bsc.ProtoBufRuntimeMetaData, &bsc.ProtoBufRuntimeABI, bsc.NewProtoBufRuntime, bsc.NewProtoBufRuntimeCaller, bsc.NewProtoBufRuntimeTransactor, bsc.NewProtoBufRuntimeFilterer, bsc.DeployProtoBufRuntime,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ProtoBufRuntime)
			return []any{&bsc.ProtoBufRuntimeSession{v, c, t}, &bsc.ProtoBufRuntimeCallerSession{&v.ProtoBufRuntimeCaller, c}, &bsc.ProtoBufRuntimeTransactorSession{&v.ProtoBufRuntimeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ProtoBufRuntime)
			return []any{&bsc.ProtoBufRuntimeRaw{v}, &bsc.ProtoBufRuntimeCallerRaw{&v.ProtoBufRuntimeCaller}, &bsc.ProtoBufRuntimeTransactorRaw{&v.ProtoBufRuntimeTransactor}}
		}},
	{"bsc.PublicKey", bsc.PublicKeyMetaData, &bsc.PublicKeyABI, bsc.NewPublicKey, bsc.NewPublicKeyCaller, bsc.NewPublicKeyTransactor, bsc.NewPublicKeyFilterer, bsc.DeployPublicKey,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.PublicKey)
			return []any{&bsc.PublicKeySession{v, c, t}, &bsc.PublicKeyCallerSession{&v.PublicKeyCaller, c}, &bsc.PublicKeyTransactorSession{&v.PublicKeyTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.PublicKey)
			return []any{&bsc.PublicKeyRaw{v}, &bsc.PublicKeyCallerRaw{&v.PublicKeyCaller}, &bsc.PublicKeyTransactorRaw{&v.PublicKeyTransactor}}
		}},
	{"bsc.RLPDecode", bsc.RLPDecodeMetaData, &bsc.RLPDecodeABI, bsc.NewRLPDecode, bsc.NewRLPDecodeCaller, bsc.NewRLPDecodeTransactor, bsc.NewRLPDecodeFilterer, bsc.DeployRLPDecode,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.RLPDecode)
			return []any{&bsc.RLPDecodeSession{v, c, t}, &bsc.RLPDecodeCallerSession{&v.RLPDecodeCaller, c}, &bsc.RLPDecodeTransactorSession{&v.RLPDecodeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.RLPDecode)
			return []any{&bsc.RLPDecodeRaw{v}, &bsc.RLPDecodeCallerRaw{&v.RLPDecodeCaller}, &bsc.RLPDecodeTransactorRaw{&v.RLPDecodeTransactor}}
		}},
	{"bsc.RLPEncode", bsc.RLPEncodeMetaData, &bsc.RLPEncodeABI, bsc.NewRLPEncode, bsc.NewRLPEncodeCaller, bsc.NewRLPEncodeTransactor, bsc.NewRLPEncodeFilterer, bsc.DeployRLPEncode,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.RLPEncode)
			return []any{&bsc.RLPEncodeSession{v, c, t}, &bsc.RLPEncodeCallerSession{&v.RLPEncodeCaller, c}, &bsc.RLPEncodeTransactorSession{&v.RLPEncodeTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.RLPEncode)
			return []any{&bsc.RLPEncodeRaw{v}, &bsc.RLPEncodeCallerRaw{&v.RLPEncodeCaller}, &bsc.RLPEncodeTransactorRaw{&v.RLPEncodeTransactor}}
		}},
	{"bsc.RLPWriter", bsc.RLPWriterMetaData, &bsc.RLPWriterABI, bsc.NewRLPWriter, bsc.NewRLPWriterCaller, bsc.NewRLPWriterTransactor, bsc.NewRLPWriterFilterer, bsc.DeployRLPWriter,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.RLPWriter)
			return []any{&bsc.RLPWriterSession{v, c, t}, &bsc.RLPWriterCallerSession{&v.RLPWriterCaller, c}, &bsc.RLPWriterTransactorSession{&v.RLPWriterTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.RLPWriter)
			return []any{&bsc.RLPWriterRaw{v}, &bsc.RLPWriterCallerRaw{&v.RLPWriterCaller}, &bsc.RLPWriterTransactorRaw{&v.RLPWriterTransactor}}
		}},
	{"bsc.SafeCast", bsc.SafeCastMetaData, &bsc.SafeCastABI, bsc.NewSafeCast, bsc.NewSafeCastCaller, bsc.NewSafeCastTransactor, bsc.NewSafeCastFilterer, bsc.DeploySafeCast,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.SafeCast)
			return []any{&bsc.SafeCastSession{v, c, t}, &bsc.SafeCastCallerSession{&v.SafeCastCaller, c}, &bsc.SafeCastTransactorSession{&v.SafeCastTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.SafeCast)
			return []any{&bsc.SafeCastRaw{v}, &bsc.SafeCastCallerRaw{&v.SafeCastCaller}, &bsc.SafeCastTransactorRaw{&v.SafeCastTransactor}}
		}},
	{"bsc.SignedHeader", bsc.SignedHeaderMetaData, &bsc.SignedHeaderABI, bsc.NewSignedHeader, bsc.NewSignedHeaderCaller, bsc.NewSignedHeaderTransactor, bsc.NewSignedHeaderFilterer, bsc.DeploySignedHeader,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.SignedHeader)
			return []any{&bsc.SignedHeaderSession{v, c, t}, &bsc.SignedHeaderCallerSession{&v.SignedHeaderCaller, c}, &bsc.SignedHeaderTransactorSession{&v.SignedHeaderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.SignedHeader)
			return []any{&bsc.SignedHeaderRaw{v}, &bsc.SignedHeaderCallerRaw{&v.SignedHeaderCaller}, &bsc.SignedHeaderTransactorRaw{&v.SignedHeaderTransactor}}
		}},
	{"bsc.SimpleValidator", bsc.SimpleValidatorMetaData, &bsc.SimpleValidatorABI, bsc.NewSimpleValidator, bsc.NewSimpleValidatorCaller, bsc.NewSimpleValidatorTransactor, bsc.NewSimpleValidatorFilterer, bsc.DeploySimpleValidator,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.SimpleValidator)
			return []any{&bsc.SimpleValidatorSession{v, c, t}, &bsc.SimpleValidatorCallerSession{&v.SimpleValidatorCaller, c}, &bsc.SimpleValidatorTransactorSession{&v.SimpleValidatorTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.SimpleValidator)
			return []any{&bsc.SimpleValidatorRaw{v}, &bsc.SimpleValidatorCallerRaw{&v.SimpleValidatorCaller}, &bsc.SimpleValidatorTransactorRaw{&v.SimpleValidatorTransactor}}
		}},
	{"bsc.System", bsc.SystemMetaData, &bsc.SystemABI, bsc.NewSystem, bsc.NewSystemCaller, bsc.NewSystemTransactor, bsc.NewSystemFilterer, bsc.DeploySystem,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.System)
			return []any{&bsc.SystemSession{v, c, t}, &bsc.SystemCallerSession{&v.SystemCaller, c}, &bsc.SystemTransactorSession{&v.SystemTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.System)
			return []any{&bsc.SystemRaw{v}, &bsc.SystemCallerRaw{&v.SystemCaller}, &bsc.SystemTransactorRaw{&v.SystemTransactor}}
		}},
	{"bsc.TENDERMINTLIGHTPROTOGLOBALENUMS", bsc.TENDERMINTLIGHTPROTOGLOBALENUMSMetaData, &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSABI, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMS, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSCaller, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSTransactor, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSFilterer, bsc.DeployTENDERMINTLIGHTPROTOGLOBALENUMS,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.TENDERMINTLIGHTPROTOGLOBALENUMS)
			return []any{&bsc.TENDERMINTLIGHTPROTOGLOBALENUMSSession{v, c, t}, &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSCallerSession{&v.TENDERMINTLIGHTPROTOGLOBALENUMSCaller, c}, &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSTransactorSession{&v.TENDERMINTLIGHTPROTOGLOBALENUMSTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.TENDERMINTLIGHTPROTOGLOBALENUMS)
			return []any{&bsc.TENDERMINTLIGHTPROTOGLOBALENUMSRaw{v}, &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSCallerRaw{&v.TENDERMINTLIGHTPROTOGLOBALENUMSCaller}, &bsc.TENDERMINTLIGHTPROTOGLOBALENUMSTransactorRaw{&v.TENDERMINTLIGHTPROTOGLOBALENUMSTransactor}}
		}},
	{"bsc.Tendermint", bsc.TendermintMetaData, &bsc.TendermintABI, bsc.NewTendermint, bsc.NewTendermintCaller, bsc.NewTendermintTransactor, bsc.NewTendermintFilterer, bsc.DeployTendermint,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Tendermint)
			return []any{&bsc.TendermintSession{v, c, t}, &bsc.TendermintCallerSession{&v.TendermintCaller, c}, &bsc.TendermintTransactorSession{&v.TendermintTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Tendermint)
			return []any{&bsc.TendermintRaw{v}, &bsc.TendermintCallerRaw{&v.TendermintCaller}, &bsc.TendermintTransactorRaw{&v.TendermintTransactor}}
		}},
	{"bsc.TendermintHelper", bsc.TendermintHelperMetaData, &bsc.TendermintHelperABI, bsc.NewTendermintHelper, bsc.NewTendermintHelperCaller, bsc.NewTendermintHelperTransactor, bsc.NewTendermintHelperFilterer, bsc.DeployTendermintHelper,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.TendermintHelper)
			return []any{&bsc.TendermintHelperSession{v, c, t}, &bsc.TendermintHelperCallerSession{&v.TendermintHelperCaller, c}, &bsc.TendermintHelperTransactorSession{&v.TendermintHelperTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.TendermintHelper)
			return []any{&bsc.TendermintHelperRaw{v}, &bsc.TendermintHelperCallerRaw{&v.TendermintHelperCaller}, &bsc.TendermintHelperTransactorRaw{&v.TendermintHelperTransactor}}
		}},
	{"bsc.TendermintLightClient", bsc.TendermintLightClientMetaData, &bsc.TendermintLightClientABI, bsc.NewTendermintLightClient, bsc.NewTendermintLightClientCaller, bsc.NewTendermintLightClientTransactor, bsc.NewTendermintLightClientFilterer, bsc.DeployTendermintLightClient,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.TendermintLightClient)
			return []any{&bsc.TendermintLightClientSession{v, c, t}, &bsc.TendermintLightClientCallerSession{&v.TendermintLightClientCaller, c}, &bsc.TendermintLightClientTransactorSession{&v.TendermintLightClientTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.TendermintLightClient)
			return []any{&bsc.TendermintLightClientRaw{v}, &bsc.TendermintLightClientCallerRaw{&v.TendermintLightClientCaller}, &bsc.TendermintLightClientTransactorRaw{&v.TendermintLightClientTransactor}}
		}},
	{"bsc.Timestamp", bsc.TimestampMetaData, &bsc.TimestampABI, bsc.NewTimestamp, bsc.NewTimestampCaller, bsc.NewTimestampTransactor, bsc.NewTimestampFilterer, bsc.DeployTimestamp,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Timestamp)
			return []any{&bsc.TimestampSession{v, c, t}, &bsc.TimestampCallerSession{&v.TimestampCaller, c}, &bsc.TimestampTransactorSession{&v.TimestampTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Timestamp)
			return []any{&bsc.TimestampRaw{v}, &bsc.TimestampCallerRaw{&v.TimestampCaller}, &bsc.TimestampTransactorRaw{&v.TimestampTransactor}}
		}},
	{"bsc.TmHeader", bsc.TmHeaderMetaData, &bsc.TmHeaderABI, bsc.NewTmHeader, bsc.NewTmHeaderCaller, bsc.NewTmHeaderTransactor, bsc.NewTmHeaderFilterer, bsc.DeployTmHeader,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.TmHeader)
			return []any{&bsc.TmHeaderSession{v, c, t}, &bsc.TmHeaderCallerSession{&v.TmHeaderCaller, c}, &bsc.TmHeaderTransactorSession{&v.TmHeaderTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.TmHeader)
			return []any{&bsc.TmHeaderRaw{v}, &bsc.TmHeaderCallerRaw{&v.TmHeaderCaller}, &bsc.TmHeaderTransactorRaw{&v.TmHeaderTransactor}}
		}},
	{"bsc.Validator", bsc.ValidatorMetaData, &bsc.ValidatorABI, bsc.NewValidator, bsc.NewValidatorCaller, bsc.NewValidatorTransactor, bsc.NewValidatorFilterer, bsc.DeployValidator,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Validator)
			return []any{&bsc.ValidatorSession{v, c, t}, &bsc.ValidatorCallerSession{&v.ValidatorCaller, c}, &bsc.ValidatorTransactorSession{&v.ValidatorTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Validator)
			return []any{&bsc.ValidatorRaw{v}, &bsc.ValidatorCallerRaw{&v.ValidatorCaller}, &bsc.ValidatorTransactorRaw{&v.ValidatorTransactor}}
		}},
	{"bsc.ValidatorSet", bsc.ValidatorSetMetaData, &bsc.ValidatorSetABI, bsc.NewValidatorSet, bsc.NewValidatorSetCaller, bsc.NewValidatorSetTransactor, bsc.NewValidatorSetFilterer, bsc.DeployValidatorSet,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.ValidatorSet)
			return []any{&bsc.ValidatorSetSession{v, c, t}, &bsc.ValidatorSetCallerSession{&v.ValidatorSetCaller, c}, &bsc.ValidatorSetTransactorSession{&v.ValidatorSetTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.ValidatorSet)
			return []any{&bsc.ValidatorSetRaw{v}, &bsc.ValidatorSetCallerRaw{&v.ValidatorSetCaller}, &bsc.ValidatorSetTransactorRaw{&v.ValidatorSetTransactor}}
		}},
	{"bsc.Vote", bsc.VoteMetaData, &bsc.VoteABI, bsc.NewVote, bsc.NewVoteCaller, bsc.NewVoteTransactor, bsc.NewVoteFilterer, bsc.DeployVote,
		func(x any, c bind.CallOpts, t bind.TransactOpts) []any {
			v := x.(*bsc.Vote)
			return []any{&bsc.VoteSession{v, c, t}, &bsc.VoteCallerSession{&v.VoteCaller, c}, &bsc.VoteTransactorSession{&v.VoteTransactor, t}}
		},
		func(x any) []any {
			v := x.(*bsc.Vote)
			return []any{&bsc.VoteRaw{v}, &bsc.VoteCallerRaw{&v.VoteCaller}, &bsc.VoteTransactorRaw{&v.VoteTransactor}}
		}},
}
