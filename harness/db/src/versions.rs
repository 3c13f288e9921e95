//! V01: versioned operations run what the version table names, or refuse.
#![allow(unused_mut)]
use crate::history::Scratch;
use crate::sim::refs;
use grovedb::batch::key_info::KeyInfo;
use grovedb::batch::estimated_costs::EstimatedCostsType;
use grovedb::batch::{BatchApplyOptions, KeyInfoPath, QualifiedGroveDbOp, SubelementsDeletionBehavior};
use grovedb::operations::delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions};
use grovedb::query_result_type::QueryResultType;
use grovedb::reference_path::ReferencePathType;
use grovedb::{AggregateSumPathQuery, Element, EstimatedLayerCount, EstimatedLayerInformation, EstimatedLayerSizes, EstimatedSumTrees, GroveDb, MaybeTree, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery, Transaction, TreeType, VerifyOptions, WorstCaseLayerInformation};
use grovedb_costs::{CostResult, OperationCost, storage_cost::removal::StorageRemovedBytes};
use grovedb_query::{Query, QueryItem};
use grovedb_storage::rocksdb_storage::RocksDbStorage;
use grovedb_version::version::{GROVE_VERSIONS, GroveVersion};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use vcommon::{Ctx, fnv};
use grovedb::element::query::ElementQueryExtensions;
use grovedb::element::query_options::QueryOptions;
use grovedb_merk::element::{costs::ElementCostExtensions, delete::ElementDeleteFromStorageExtensions, exists::ElementExistsInStorageExtensions, get::ElementFetchFromStorageExtensions, insert::ElementInsertToStorageExtensions};
use grovedb_merk::{BatchEntry, Merk, TreeFeatureType};
use grovedb_path::SubtreePath;
use grovedb_storage::{Storage, StorageBatch};


type Slot = (&'static str, fn(&mut GroveVersion) -> &mut u16);
const SLOTS: &[Slot] = &[
    ("grovedb_versions.apply_batch.apply_batch_structure", |v| &mut v.grovedb_versions.apply_batch.apply_batch_structure),
    ("grovedb_versions.apply_batch.apply_body", |v| &mut v.grovedb_versions.apply_batch.apply_body),
    ("grovedb_versions.apply_batch.continue_partial_apply_body", |v| &mut v.grovedb_versions.apply_batch.continue_partial_apply_body),
    ("grovedb_versions.apply_batch.apply_operations_without_batching", |v| &mut v.grovedb_versions.apply_batch.apply_operations_without_batching),
    ("grovedb_versions.apply_batch.apply_batch", |v| &mut v.grovedb_versions.apply_batch.apply_batch),
    ("grovedb_versions.apply_batch.apply_partial_batch", |v| &mut v.grovedb_versions.apply_batch.apply_partial_batch),
    ("grovedb_versions.apply_batch.open_batch_transactional_merk_at_path", |v| &mut v.grovedb_versions.apply_batch.open_batch_transactional_merk_at_path),
    ("grovedb_versions.apply_batch.open_batch_merk_at_path", |v| &mut v.grovedb_versions.apply_batch.open_batch_merk_at_path),
    ("grovedb_versions.apply_batch.apply_batch_with_element_flags_update", |v| &mut v.grovedb_versions.apply_batch.apply_batch_with_element_flags_update),
    ("grovedb_versions.apply_batch.apply_partial_batch_with_element_flags_update", |v| &mut v.grovedb_versions.apply_batch.apply_partial_batch_with_element_flags_update),
    ("grovedb_versions.apply_batch.estimated_case_operations_for_batch", |v| &mut v.grovedb_versions.apply_batch.estimated_case_operations_for_batch),
    ("grovedb_versions.element.delete", |v| &mut v.grovedb_versions.element.delete),
    ("grovedb_versions.element.delete_with_sectioned_removal_bytes", |v| &mut v.grovedb_versions.element.delete_with_sectioned_removal_bytes),
    ("grovedb_versions.element.delete_into_batch_operations", |v| &mut v.grovedb_versions.element.delete_into_batch_operations),
    ("grovedb_versions.element.element_at_key_already_exists", |v| &mut v.grovedb_versions.element.element_at_key_already_exists),
    ("grovedb_versions.element.get", |v| &mut v.grovedb_versions.element.get),
    ("grovedb_versions.element.get_optional", |v| &mut v.grovedb_versions.element.get_optional),
    ("grovedb_versions.element.get_from_storage", |v| &mut v.grovedb_versions.element.get_from_storage),
    ("grovedb_versions.element.get_optional_from_storage", |v| &mut v.grovedb_versions.element.get_optional_from_storage),
    ("grovedb_versions.element.get_with_absolute_refs", |v| &mut v.grovedb_versions.element.get_with_absolute_refs),
    ("grovedb_versions.element.get_value_hash", |v| &mut v.grovedb_versions.element.get_value_hash),
    ("grovedb_versions.element.get_with_value_hash", |v| &mut v.grovedb_versions.element.get_with_value_hash),
    ("grovedb_versions.element.get_specialized_cost", |v| &mut v.grovedb_versions.element.get_specialized_cost),
    ("grovedb_versions.element.value_defined_cost", |v| &mut v.grovedb_versions.element.value_defined_cost),
    ("grovedb_versions.element.value_defined_cost_for_serialized_value", |v| &mut v.grovedb_versions.element.value_defined_cost_for_serialized_value),
    ("grovedb_versions.element.specialized_costs_for_key_value", |v| &mut v.grovedb_versions.element.specialized_costs_for_key_value),
    ("grovedb_versions.element.required_item_space", |v| &mut v.grovedb_versions.element.required_item_space),
    ("grovedb_versions.element.insert", |v| &mut v.grovedb_versions.element.insert),
    ("grovedb_versions.element.insert_into_batch_operations", |v| &mut v.grovedb_versions.element.insert_into_batch_operations),
    ("grovedb_versions.element.insert_if_not_exists", |v| &mut v.grovedb_versions.element.insert_if_not_exists),
    ("grovedb_versions.element.insert_if_not_exists_into_batch_operations", |v| &mut v.grovedb_versions.element.insert_if_not_exists_into_batch_operations),
    ("grovedb_versions.element.insert_if_changed_value", |v| &mut v.grovedb_versions.element.insert_if_changed_value),
    ("grovedb_versions.element.insert_if_changed_value_into_batch_operations", |v| &mut v.grovedb_versions.element.insert_if_changed_value_into_batch_operations),
    ("grovedb_versions.element.insert_reference", |v| &mut v.grovedb_versions.element.insert_reference),
    ("grovedb_versions.element.insert_reference_into_batch_operations", |v| &mut v.grovedb_versions.element.insert_reference_into_batch_operations),
    ("grovedb_versions.element.insert_reference_if_changed_value", |v| &mut v.grovedb_versions.element.insert_reference_if_changed_value),
    ("grovedb_versions.element.insert_subtree", |v| &mut v.grovedb_versions.element.insert_subtree),
    ("grovedb_versions.element.insert_subtree_into_batch_operations", |v| &mut v.grovedb_versions.element.insert_subtree_into_batch_operations),
    ("grovedb_versions.element.get_query", |v| &mut v.grovedb_versions.element.get_query),
    ("grovedb_versions.element.get_aggregate_sum_query", |v| &mut v.grovedb_versions.element.get_aggregate_sum_query),
    ("grovedb_versions.element.get_query_values", |v| &mut v.grovedb_versions.element.get_query_values),
    ("grovedb_versions.element.get_query_apply_function", |v| &mut v.grovedb_versions.element.get_query_apply_function),
    ("grovedb_versions.element.get_path_query", |v| &mut v.grovedb_versions.element.get_path_query),
    ("grovedb_versions.element.get_sized_query", |v| &mut v.grovedb_versions.element.get_sized_query),
    ("grovedb_versions.element.get_aggregate_sum_query_apply_function", |v| &mut v.grovedb_versions.element.get_aggregate_sum_query_apply_function),
    ("grovedb_versions.element.path_query_push", |v| &mut v.grovedb_versions.element.path_query_push),
    ("grovedb_versions.element.aggregate_sum_path_query_push", |v| &mut v.grovedb_versions.element.aggregate_sum_path_query_push),
    ("grovedb_versions.element.query_item", |v| &mut v.grovedb_versions.element.query_item),
    ("grovedb_versions.element.basic_push", |v| &mut v.grovedb_versions.element.basic_push),
    ("grovedb_versions.element.basic_aggregate_sum_push", |v| &mut v.grovedb_versions.element.basic_aggregate_sum_push),
    ("grovedb_versions.element.serialize", |v| &mut v.grovedb_versions.element.serialize),
    ("grovedb_versions.element.serialized_size", |v| &mut v.grovedb_versions.element.serialized_size),
    ("grovedb_versions.element.deserialize", |v| &mut v.grovedb_versions.element.deserialize),
    ("grovedb_versions.element.aggregate_sum_query_item", |v| &mut v.grovedb_versions.element.aggregate_sum_query_item),
    ("grovedb_versions.operations.get.get", |v| &mut v.grovedb_versions.operations.get.get),
    ("grovedb_versions.operations.get.get_caching_optional", |v| &mut v.grovedb_versions.operations.get.get_caching_optional),
    ("grovedb_versions.operations.get.follow_reference", |v| &mut v.grovedb_versions.operations.get.follow_reference),
    ("grovedb_versions.operations.get.follow_reference_once", |v| &mut v.grovedb_versions.operations.get.follow_reference_once),
    ("grovedb_versions.operations.get.get_raw", |v| &mut v.grovedb_versions.operations.get.get_raw),
    ("grovedb_versions.operations.get.get_raw_caching_optional", |v| &mut v.grovedb_versions.operations.get.get_raw_caching_optional),
    ("grovedb_versions.operations.get.get_raw_optional", |v| &mut v.grovedb_versions.operations.get.get_raw_optional),
    ("grovedb_versions.operations.get.get_raw_optional_caching_optional", |v| &mut v.grovedb_versions.operations.get.get_raw_optional_caching_optional),
    ("grovedb_versions.operations.get.has_raw", |v| &mut v.grovedb_versions.operations.get.has_raw),
    ("grovedb_versions.operations.get.check_subtree_exists_invalid_path", |v| &mut v.grovedb_versions.operations.get.check_subtree_exists_invalid_path),
    ("grovedb_versions.operations.get.average_case_for_has_raw", |v| &mut v.grovedb_versions.operations.get.average_case_for_has_raw),
    ("grovedb_versions.operations.get.average_case_for_has_raw_tree", |v| &mut v.grovedb_versions.operations.get.average_case_for_has_raw_tree),
    ("grovedb_versions.operations.get.average_case_for_get_raw", |v| &mut v.grovedb_versions.operations.get.average_case_for_get_raw),
    ("grovedb_versions.operations.get.average_case_for_get", |v| &mut v.grovedb_versions.operations.get.average_case_for_get),
    ("grovedb_versions.operations.get.average_case_for_get_tree", |v| &mut v.grovedb_versions.operations.get.average_case_for_get_tree),
    ("grovedb_versions.operations.get.worst_case_for_has_raw", |v| &mut v.grovedb_versions.operations.get.worst_case_for_has_raw),
    ("grovedb_versions.operations.get.worst_case_for_get_raw", |v| &mut v.grovedb_versions.operations.get.worst_case_for_get_raw),
    ("grovedb_versions.operations.get.worst_case_for_get", |v| &mut v.grovedb_versions.operations.get.worst_case_for_get),
    ("grovedb_versions.operations.get.is_empty_tree", |v| &mut v.grovedb_versions.operations.get.is_empty_tree),
    ("grovedb_versions.operations.insert.insert", |v| &mut v.grovedb_versions.operations.insert.insert),
    ("grovedb_versions.operations.insert.insert_on_transaction", |v| &mut v.grovedb_versions.operations.insert.insert_on_transaction),
    ("grovedb_versions.operations.insert.insert_without_transaction", |v| &mut v.grovedb_versions.operations.insert.insert_without_transaction),
    ("grovedb_versions.operations.insert.add_element_on_transaction", |v| &mut v.grovedb_versions.operations.insert.add_element_on_transaction),
    ("grovedb_versions.operations.insert.add_element_without_transaction", |v| &mut v.grovedb_versions.operations.insert.add_element_without_transaction),
    ("grovedb_versions.operations.insert.insert_if_not_exists", |v| &mut v.grovedb_versions.operations.insert.insert_if_not_exists),
    ("grovedb_versions.operations.insert.insert_if_not_exists_return_existing_element", |v| &mut v.grovedb_versions.operations.insert.insert_if_not_exists_return_existing_element),
    ("grovedb_versions.operations.insert.insert_if_changed_value", |v| &mut v.grovedb_versions.operations.insert.insert_if_changed_value),
    ("grovedb_versions.operations.delete.delete", |v| &mut v.grovedb_versions.operations.delete.delete),
    ("grovedb_versions.operations.delete.clear_subtree", |v| &mut v.grovedb_versions.operations.delete.clear_subtree),
    ("grovedb_versions.operations.delete.delete_with_sectional_storage_function", |v| &mut v.grovedb_versions.operations.delete.delete_with_sectional_storage_function),
    ("grovedb_versions.operations.delete.delete_if_empty_tree", |v| &mut v.grovedb_versions.operations.delete.delete_if_empty_tree),
    ("grovedb_versions.operations.delete.delete_if_empty_tree_with_sectional_storage_function", |v| &mut v.grovedb_versions.operations.delete.delete_if_empty_tree_with_sectional_storage_function),
    ("grovedb_versions.operations.delete.delete_operation_for_delete_internal", |v| &mut v.grovedb_versions.operations.delete.delete_operation_for_delete_internal),
    ("grovedb_versions.operations.delete.delete_internal_on_transaction", |v| &mut v.grovedb_versions.operations.delete.delete_internal_on_transaction),
    ("grovedb_versions.operations.delete.delete_internal_without_transaction", |v| &mut v.grovedb_versions.operations.delete.delete_internal_without_transaction),
    ("grovedb_versions.operations.delete.average_case_delete_operation_for_delete", |v| &mut v.grovedb_versions.operations.delete.average_case_delete_operation_for_delete),
    ("grovedb_versions.operations.delete.worst_case_delete_operation_for_delete", |v| &mut v.grovedb_versions.operations.delete.worst_case_delete_operation_for_delete),
    ("grovedb_versions.operations.delete_up_tree.delete_up_tree_while_empty", |v| &mut v.grovedb_versions.operations.delete_up_tree.delete_up_tree_while_empty),
    ("grovedb_versions.operations.delete_up_tree.delete_up_tree_while_empty_with_sectional_storage", |v| &mut v.grovedb_versions.operations.delete_up_tree.delete_up_tree_while_empty_with_sectional_storage),
    ("grovedb_versions.operations.delete_up_tree.delete_operations_for_delete_up_tree_while_empty", |v| &mut v.grovedb_versions.operations.delete_up_tree.delete_operations_for_delete_up_tree_while_empty),
    ("grovedb_versions.operations.delete_up_tree.add_delete_operations_for_delete_up_tree_while_empty", |v| &mut v.grovedb_versions.operations.delete_up_tree.add_delete_operations_for_delete_up_tree_while_empty),
    ("grovedb_versions.operations.delete_up_tree.average_case_delete_operations_for_delete_up_tree_while_empty", |v| &mut v.grovedb_versions.operations.delete_up_tree.average_case_delete_operations_for_delete_up_tree_while_empty),
    ("grovedb_versions.operations.delete_up_tree.worst_case_delete_operations_for_delete_up_tree_while_empty", |v| &mut v.grovedb_versions.operations.delete_up_tree.worst_case_delete_operations_for_delete_up_tree_while_empty),
    ("grovedb_versions.operations.query.query_encoded_many", |v| &mut v.grovedb_versions.operations.query.query_encoded_many),
    ("grovedb_versions.operations.query.query_many_raw", |v| &mut v.grovedb_versions.operations.query.query_many_raw),
    ("grovedb_versions.operations.query.get_proved_path_query", |v| &mut v.grovedb_versions.operations.query.get_proved_path_query),
    ("grovedb_versions.operations.query.query", |v| &mut v.grovedb_versions.operations.query.query),
    ("grovedb_versions.operations.query.query_item_value", |v| &mut v.grovedb_versions.operations.query.query_item_value),
    ("grovedb_versions.operations.query.query_item_value_or_sum", |v| &mut v.grovedb_versions.operations.query.query_item_value_or_sum),
    ("grovedb_versions.operations.query.query_aggregate_sums", |v| &mut v.grovedb_versions.operations.query.query_aggregate_sums),
    ("grovedb_versions.operations.query.query_sums", |v| &mut v.grovedb_versions.operations.query.query_sums),
    ("grovedb_versions.operations.query.query_raw", |v| &mut v.grovedb_versions.operations.query.query_raw),
    ("grovedb_versions.operations.query.query_keys_optional", |v| &mut v.grovedb_versions.operations.query.query_keys_optional),
    ("grovedb_versions.operations.query.query_raw_keys_optional", |v| &mut v.grovedb_versions.operations.query.query_raw_keys_optional),
    ("grovedb_versions.operations.query.follow_element", |v| &mut v.grovedb_versions.operations.query.follow_element),
    ("grovedb_versions.operations.proof.prove_query", |v| &mut v.grovedb_versions.operations.proof.prove_query),
    ("grovedb_versions.operations.proof.prove_query_many", |v| &mut v.grovedb_versions.operations.proof.prove_query_many),
    ("grovedb_versions.operations.proof.prove_query_non_serialized", |v| &mut v.grovedb_versions.operations.proof.prove_query_non_serialized),
    ("grovedb_versions.operations.proof.prove_trunk_chunk", |v| &mut v.grovedb_versions.operations.proof.prove_trunk_chunk),
    ("grovedb_versions.operations.proof.prove_trunk_chunk_non_serialized", |v| &mut v.grovedb_versions.operations.proof.prove_trunk_chunk_non_serialized),
    ("grovedb_versions.operations.proof.prove_branch_chunk", |v| &mut v.grovedb_versions.operations.proof.prove_branch_chunk),
    ("grovedb_versions.operations.proof.prove_branch_chunk_non_serialized", |v| &mut v.grovedb_versions.operations.proof.prove_branch_chunk_non_serialized),
    ("grovedb_versions.operations.proof.verify_query_with_options", |v| &mut v.grovedb_versions.operations.proof.verify_query_with_options),
    ("grovedb_versions.operations.proof.verify_query_raw", |v| &mut v.grovedb_versions.operations.proof.verify_query_raw),
    ("grovedb_versions.operations.proof.verify_layer_proof", |v| &mut v.grovedb_versions.operations.proof.verify_layer_proof),
    ("grovedb_versions.operations.proof.verify_query", |v| &mut v.grovedb_versions.operations.proof.verify_query),
    ("grovedb_versions.operations.proof.verify_subset_query", |v| &mut v.grovedb_versions.operations.proof.verify_subset_query),
    ("grovedb_versions.operations.proof.verify_query_with_absence_proof", |v| &mut v.grovedb_versions.operations.proof.verify_query_with_absence_proof),
    ("grovedb_versions.operations.proof.verify_subset_query_with_absence_proof", |v| &mut v.grovedb_versions.operations.proof.verify_subset_query_with_absence_proof),
    ("grovedb_versions.operations.proof.verify_query_with_chained_path_queries", |v| &mut v.grovedb_versions.operations.proof.verify_query_with_chained_path_queries),
    ("grovedb_versions.operations.proof.verify_query_get_parent_tree_info_with_options", |v| &mut v.grovedb_versions.operations.proof.verify_query_get_parent_tree_info_with_options),
    ("grovedb_versions.operations.average_case.add_average_case_get_merk_at_path", |v| &mut v.grovedb_versions.operations.average_case.add_average_case_get_merk_at_path),
    ("grovedb_versions.operations.average_case.average_case_merk_replace_tree", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_replace_tree),
    ("grovedb_versions.operations.average_case.average_case_merk_insert_tree", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_insert_tree),
    ("grovedb_versions.operations.average_case.average_case_merk_delete_tree", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_delete_tree),
    ("grovedb_versions.operations.average_case.average_case_merk_insert_element", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_insert_element),
    ("grovedb_versions.operations.average_case.average_case_merk_replace_element", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_replace_element),
    ("grovedb_versions.operations.average_case.average_case_merk_patch_element", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_patch_element),
    ("grovedb_versions.operations.average_case.average_case_merk_delete_element", |v| &mut v.grovedb_versions.operations.average_case.average_case_merk_delete_element),
    ("grovedb_versions.operations.average_case.add_average_case_has_raw_cost", |v| &mut v.grovedb_versions.operations.average_case.add_average_case_has_raw_cost),
    ("grovedb_versions.operations.average_case.add_average_case_has_raw_tree_cost", |v| &mut v.grovedb_versions.operations.average_case.add_average_case_has_raw_tree_cost),
    ("grovedb_versions.operations.average_case.add_average_case_get_raw_cost", |v| &mut v.grovedb_versions.operations.average_case.add_average_case_get_raw_cost),
    ("grovedb_versions.operations.average_case.add_average_case_get_raw_tree_cost", |v| &mut v.grovedb_versions.operations.average_case.add_average_case_get_raw_tree_cost),
    ("grovedb_versions.operations.average_case.add_average_case_get_cost", |v| &mut v.grovedb_versions.operations.average_case.add_average_case_get_cost),
    ("grovedb_versions.operations.worst_case.add_worst_case_get_merk_at_path", |v| &mut v.grovedb_versions.operations.worst_case.add_worst_case_get_merk_at_path),
    ("grovedb_versions.operations.worst_case.worst_case_merk_replace_tree", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_replace_tree),
    ("grovedb_versions.operations.worst_case.worst_case_merk_insert_tree", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_insert_tree),
    ("grovedb_versions.operations.worst_case.worst_case_merk_delete_tree", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_delete_tree),
    ("grovedb_versions.operations.worst_case.worst_case_merk_insert_element", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_insert_element),
    ("grovedb_versions.operations.worst_case.worst_case_merk_replace_element", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_replace_element),
    ("grovedb_versions.operations.worst_case.worst_case_merk_patch_element", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_patch_element),
    ("grovedb_versions.operations.worst_case.worst_case_merk_delete_element", |v| &mut v.grovedb_versions.operations.worst_case.worst_case_merk_delete_element),
    ("grovedb_versions.operations.worst_case.add_worst_case_has_raw_cost", |v| &mut v.grovedb_versions.operations.worst_case.add_worst_case_has_raw_cost),
    ("grovedb_versions.operations.worst_case.add_worst_case_get_raw_tree_cost", |v| &mut v.grovedb_versions.operations.worst_case.add_worst_case_get_raw_tree_cost),
    ("grovedb_versions.operations.worst_case.add_worst_case_get_raw_cost", |v| &mut v.grovedb_versions.operations.worst_case.add_worst_case_get_raw_cost),
    ("grovedb_versions.operations.worst_case.add_worst_case_get_cost", |v| &mut v.grovedb_versions.operations.worst_case.add_worst_case_get_cost),
    ("grovedb_versions.aggregate_sum_path_query_methods.merge", |v| &mut v.grovedb_versions.aggregate_sum_path_query_methods.merge),
    ("grovedb_versions.path_query_methods.terminal_keys", |v| &mut v.grovedb_versions.path_query_methods.terminal_keys),
    ("grovedb_versions.path_query_methods.merge", |v| &mut v.grovedb_versions.path_query_methods.merge),
    ("grovedb_versions.path_query_methods.query_items_at_path", |v| &mut v.grovedb_versions.path_query_methods.query_items_at_path),
    ("grovedb_versions.path_query_methods.should_add_parent_tree_at_path", |v| &mut v.grovedb_versions.path_query_methods.should_add_parent_tree_at_path),
    ("grovedb_versions.replication.get_subtrees_metadata", |v| &mut v.grovedb_versions.replication.get_subtrees_metadata),
    ("grovedb_versions.replication.fetch_chunk", |v| &mut v.grovedb_versions.replication.fetch_chunk),
    ("grovedb_versions.replication.start_snapshot_syncing", |v| &mut v.grovedb_versions.replication.start_snapshot_syncing),
    ("grovedb_versions.replication.apply_chunk", |v| &mut v.grovedb_versions.replication.apply_chunk),
    ("merk_versions.batch.commit", |v| &mut v.merk_versions.batch.commit),
    ("merk_versions.average_case_costs.add_average_case_merk_propagate", |v| &mut v.merk_versions.average_case_costs.add_average_case_merk_propagate),
    ("merk_versions.average_case_costs.sum_tree_estimated_size", |v| &mut v.merk_versions.average_case_costs.sum_tree_estimated_size),
];

pub struct Env {
    pub db: GroveDb,
    _dir: Scratch,
}
fn k(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn p(s: &[&str]) -> Vec<Vec<u8>> {
    s.iter().map(|x| k(x)).collect()
}
fn item(s: &str) -> Element {
    Element::new_item(k(s))
}
fn contents() -> Vec<(Vec<Vec<u8>>, Vec<u8>, Element)> {
    let mut c = vec![
        (p(&[]), k("a"), Element::empty_tree()),
        (p(&["a"]), k("k1"), item("one")),
        (p(&["a"]), k("k2"), item("two")),
        (p(&["a"]), k("r"), Element::new_reference(ReferencePathType::AbsolutePathReference(p(&["a", "k1"])))),
        (p(&["a"]), k("rr"), Element::new_reference(ReferencePathType::SiblingReference(k("r")))),
        (p(&["a"]), k("sub"), Element::empty_tree()),
        (p(&["a", "sub"]), k("x"), item("below")),
        (p(&["a"]), k("up"), Element::empty_tree()),
        (p(&["a", "up"]), k("up"), Element::empty_tree()),
        (p(&["a"]), k("empty"), Element::empty_tree()),
        (p(&[]), k("s"), Element::empty_sum_tree()),
        (p(&["s"]), k("1"), Element::new_sum_item(5)),
        (p(&["s"]), k("2"), Element::new_sum_item(-7)),
        (p(&["s"]), k("3"), Element::new_item_with_sum_item(k("both"), 9)),
        (p(&[]), k("c"), Element::empty_provable_count_tree()),
        (p(&[]), k("m"), Element::empty_mmr_tree()),
        (p(&[]), k("b"), Element::empty_bulk_append_tree(2).expect("valid")),
    ];
    for i in 0..20u8 {
        c.push((p(&["c"]), vec![b'0' + i], if i % 3 == 0 { Element::empty_tree() } else { item("counted") }));
    }
    for i in (0..20u8).step_by(3) {
        c.push((vec![k("c"), vec![b'0' + i]], k("z"), item("inner")));
    }
    c
}
pub fn env(v: &GroveVersion) -> Env {
    let dir = Scratch::new();
    let db = GroveDb::open(dir.sub("db")).expect("opens");
    for (p, k, e) in contents() {
        db.insert(refs(&p).as_slice(), &k, e, None, None, v).unwrap().expect("fixture");
    }
    for i in 0..6u8 {
        db.mmr_tree_append([b"".as_slice(); 0].as_slice(), b"m", vec![i], None, v).unwrap().expect("fixture");
        db.bulk_append([b"".as_slice(); 0].as_slice(), b"b", vec![i], None, v).unwrap().expect("fixture");
    }
    Env { db, _dir: dir }
}

/// what an operation gave: its result, and what it reports to have cost
#[derive(Clone, PartialEq, Debug)]
struct Gave {
    ok: bool,
    result: String,
    cost: String,
}
fn costed<T: Debug, E: Debug>(r: CostResult<T, E>) -> Gave {
    let cost = format!("{:?}", r.cost);
    Gave { cost, ..plain(r.value) }
}
fn plain<T: Debug, E: Debug>(r: Result<T, E>) -> Gave {
    Gave { ok: r.is_ok(), result: r.map_or_else(|e| format!("{e:?}"), |x| format!("{x:?}")), cost: String::new() }
}
fn sized(path: &[&str], items: Vec<QueryItem>, limit: Option<u16>) -> PathQuery {
    let mut q = Query::new();
    for i in items {
        q.insert_item(i);
    }
    PathQuery::new(p(path), SizedQuery::new(q, limit, None))
}
fn all(path: &[&str]) -> PathQuery {
    sized(path, vec![QueryItem::RangeFull(std::ops::RangeFull)], None)
}
fn deeper() -> PathQuery {
    let mut q = Query::new();
    q.insert_key(k("sub"));
    q.insert_key(k("k2"));
    let mut s = Query::new();
    s.insert_all();
    q.set_subquery(s);
    PathQuery::new(p(&["a"]), SizedQuery::new(q, Some(10), None))
}
fn layer() -> EstimatedLayerInformation {
    EstimatedLayerInformation {
        tree_type: TreeType::NormalTree,
        estimated_layer_count: EstimatedLayerCount::ApproximateElements(100),
        estimated_layer_sizes: EstimatedLayerSizes::AllItems(8, 40, None),
    }
}
fn trees(sums: EstimatedSumTrees) -> EstimatedLayerInformation {
    EstimatedLayerInformation {
        tree_type: TreeType::NormalTree,
        estimated_layer_count: EstimatedLayerCount::EstimatedLevel(3, false),
        estimated_layer_sizes: EstimatedLayerSizes::AllSubtrees(8, sums, None),
    }
}
fn some_sums() -> EstimatedSumTrees {
    EstimatedSumTrees::SomeSumTrees { sum_trees_weight: 1, big_sum_trees_weight: 1, count_trees_weight: 1, count_sum_trees_weight: 1, non_sum_trees_weight: 1 }
}
fn batch() -> Vec<QualifiedGroveDbOp> {
    vec![
        QualifiedGroveDbOp::insert_or_replace_op(p(&["a"]), k("k1"), item("new")),
        QualifiedGroveDbOp::insert_or_replace_op(p(&["a", "new"]), k("x"), item("newer")),
        QualifiedGroveDbOp::insert_or_replace_op(p(&["a"]), k("new"), Element::empty_tree()),
        QualifiedGroveDbOp::insert_or_replace_op(p(&["a"]), k("ref"), Element::new_reference(ReferencePathType::SiblingReference(k("k2")))),
        QualifiedGroveDbOp::delete_op(p(&["s"]), k("2")),
        QualifiedGroveDbOp::insert_or_replace_op(p(&["s"]), k("4"), Element::new_sum_item(100)),
    ]
}
fn estimated() -> Vec<QualifiedGroveDbOp> {
    let path = |s: &[&str]| KeyInfoPath::from_known_owned_path(p(s));
    vec![
        QualifiedGroveDbOp::insert_estimated_op(path(&[]), KeyInfo::KnownKey(k("n")), Element::empty_tree()),
        QualifiedGroveDbOp::insert_estimated_op(path(&["a"]), KeyInfo::KnownKey(k("i")), item("est")),
        QualifiedGroveDbOp::insert_estimated_op(path(&["a"]), KeyInfo::KnownKey(k("t")), Element::empty_sum_tree()),
        QualifiedGroveDbOp::replace_estimated_op(path(&["a"]), KeyInfo::KnownKey(k("j")), item("est")),
        QualifiedGroveDbOp::delete_estimated_op(path(&["a"]), KeyInfo::KnownKey(k("l"))),
    ]
}
fn flags(_: &grovedb_costs::storage_cost::StorageCost, _: Option<Vec<u8>>, _: &mut Vec<u8>) -> Result<bool, grovedb::Error> {
    Ok(false)
}
fn split(_: &mut Vec<u8>, k: u32, v: u32) -> Result<(StorageRemovedBytes, StorageRemovedBytes), grovedb::Error> {
    Ok((StorageRemovedBytes::BasicStorageRemoval(k), StorageRemovedBytes::BasicStorageRemoval(v)))
}
fn up_options() -> DeleteUpTreeOptions {
    DeleteUpTreeOptions { stop_path_height: Some(1), ..Default::default() }
}
fn layers(est: bool) -> EstimatedCostsType {
    let at = |s: &[&str]| KeyInfoPath::from_known_owned_path(p(s));
    if est {
        EstimatedCostsType::AverageCaseCostsType(HashMap::from([(at(&[]), trees(EstimatedSumTrees::NoSumTrees)), (at(&["a"]), trees(some_sums()))]))
    } else {
        EstimatedCostsType::WorstCaseCostsType(HashMap::from([(at(&[]), WorstCaseLayerInformation::MaxElementsNumber(100)), (at(&["a"]), WorstCaseLayerInformation::NumberOfLevels(5))]))
    }
}
fn cost_of<E: Debug>(f: impl FnOnce(&mut OperationCost) -> Result<(), E>) -> Gave {
    let mut c = OperationCost::default();
    let r = f(&mut c);
    Gave { cost: format!("{c:?}"), ..plain(r) }
}

type Run = for<'a, 'b> fn(&'a Env, &'b Transaction<'a>, &'b GroveVersion) -> Gave;
/// proofs are made with the published version, so that reading them alone is judged
struct Made {
    proof: Vec<u8>,
    deep: Vec<u8>,
    trunk: Vec<u8>,
    branch: Vec<u8>,
    leaf: [u8; 32],
}
type Check = fn(&Made, &GroveVersion) -> Gave;

/// the operations, and the slot that is theirs
const OPS: &[(&str, &str, Run)] = &[
    ("get", "operations.get.get", |e, t, v| costed(e.db.get([b"a"].as_ref(), b"rr", Some(t), v))),
    ("get_caching_optional", "operations.get.get_caching_optional", |e, t, v| costed(e.db.get_caching_optional([b"a"].as_ref().into(), b"rr", false, Some(t), v))),
    ("follow_reference", "operations.get.follow_reference", |e, t, v| costed(e.db.follow_reference([b"a".as_slice(), b"rr"].as_ref().into(), true, Some(t), v))),
    ("get_raw", "operations.get.get_raw", |e, t, v| costed(e.db.get_raw([b"a"].as_ref().into(), b"rr", Some(t), v))),
    ("get_raw_caching_optional", "operations.get.get_raw_caching_optional", |e, t, v| costed(e.db.get_raw_caching_optional([b"a"].as_ref().into(), b"rr", false, Some(t), v))),
    ("get_raw_optional", "operations.get.get_raw_optional", |e, t, v| costed(e.db.get_raw_optional([b"a"].as_ref().into(), b"k1", Some(t), v))),
    ("get_raw_optional absent", "operations.get.get_raw_optional", |e, t, v| costed(e.db.get_raw_optional([b"a"].as_ref().into(), b"none", Some(t), v))),
    ("get_raw_optional_caching_optional", "operations.get.get_raw_optional_caching_optional", |e, t, v| costed(e.db.get_raw_optional_caching_optional([b"a"].as_ref().into(), b"k1", true, Some(t), v))),
    ("has_raw", "operations.get.has_raw", |e, t, v| costed(e.db.has_raw([b"a"].as_ref(), b"k1", Some(t), v))),
    ("check_subtree_exists_invalid_path", "operations.get.check_subtree_exists_invalid_path", |e, t, v| costed(e.db.check_subtree_exists_invalid_path([b"a"].as_ref().into(), Some(t), v))),
    ("is_empty_tree", "operations.get.is_empty_tree", |e, t, v| costed(e.db.is_empty_tree([b"a".as_slice(), b"empty"].as_ref(), Some(t), v))),
    ("average_case_for_has_raw", "operations.get.average_case_for_has_raw", |_, _, v| plain(GroveDb::average_case_for_has_raw(&path_info(), &key_info(), 50, TreeType::NormalTree, v))),
    ("average_case_for_has_raw_tree", "operations.get.average_case_for_has_raw_tree", |_, _, v| plain(GroveDb::average_case_for_has_raw_tree(&path_info(), &key_info(), 5, TreeType::SumTree, TreeType::NormalTree, v))),
    ("average_case_for_get_raw", "operations.get.average_case_for_get_raw", |_, _, v| plain(GroveDb::average_case_for_get_raw(&path_info(), &key_info(), 50, TreeType::NormalTree, v))),
    ("average_case_for_get", "operations.get.average_case_for_get", |_, _, v| plain(GroveDb::average_case_for_get(&path_info(), &key_info(), TreeType::NormalTree, 50, vec![30, 40], v))),
    ("average_case_for_get_tree", "operations.get.average_case_for_get_tree", |_, _, v| plain(GroveDb::average_case_for_get_tree(&path_info(), &key_info(), 5, TreeType::SumTree, TreeType::NormalTree, v))),
    ("worst_case_for_has_raw", "operations.get.worst_case_for_has_raw", |_, _, v| plain(GroveDb::worst_case_for_has_raw(&path_info(), &key_info(), 50, TreeType::NormalTree, v))),
    ("worst_case_for_get_raw", "operations.get.worst_case_for_get_raw", |_, _, v| plain(GroveDb::worst_case_for_get_raw(&path_info(), &key_info(), 50, TreeType::NormalTree, v))),
    ("worst_case_for_get", "operations.get.worst_case_for_get", |_, _, v| plain(GroveDb::worst_case_for_get(&path_info(), &key_info(), 50, vec![30, 40], TreeType::NormalTree, v))),
    ("insert", "operations.insert.insert", |e, t, v| costed(e.db.insert([b"a"].as_ref(), b"new", item("new"), None, Some(t), v))),
    ("insert tree", "operations.insert.insert", |e, t, v| costed(e.db.insert([b"a"].as_ref(), b"new", Element::empty_sum_tree(), None, Some(t), v))),
    ("insert reference", "operations.insert.insert", |e, t, v| costed(e.db.insert([b"a"].as_ref(), b"new", Element::new_reference(ReferencePathType::SiblingReference(k("r"))), None, Some(t), v))),
    ("insert_if_not_exists", "operations.insert.insert_if_not_exists", |e, t, v| costed(e.db.insert_if_not_exists([b"a"].as_ref(), b"k1", item("other"), Some(t), v))),
    ("insert_if_not_exists absent", "operations.insert.insert_if_not_exists", |e, t, v| costed(e.db.insert_if_not_exists([b"a"].as_ref(), b"other", item("other"), Some(t), v))),
    ("insert_if_not_exists_return_existing_element", "operations.insert.insert_if_not_exists_return_existing_element", |e, t, v| costed(e.db.insert_if_not_exists_return_existing_element([b"a"].as_ref(), b"k1", item("other"), Some(t), v))),
    ("insert_if_changed_value", "operations.insert.insert_if_changed_value", |e, t, v| costed(e.db.insert_if_changed_value([b"a"].as_ref(), b"k1", item("other"), Some(t), v))),
    ("delete", "operations.delete.delete", |e, t, v| costed(e.db.delete([b"a"].as_ref(), b"k2", None, Some(t), v))),
    ("delete tree", "operations.delete.delete", |e, t, v| costed(e.db.delete([b"a"].as_ref(), b"sub", Some(DeleteOptions { allow_deleting_non_empty_trees: true, deleting_non_empty_trees_returns_error: false, ..Default::default() }), Some(t), v))),
    ("clear_subtree", "operations.delete.clear_subtree", |e, t, v| plain(e.db.clear_subtree([b"a".as_slice(), b"sub"].as_ref(), Some(ClearOptions::default()), Some(t), v))),
    ("delete_with_sectional_storage_function", "operations.delete.delete_with_sectional_storage_function", |e, t, v| costed(e.db.delete_with_sectional_storage_function([b"a"].as_ref().into(), b"k2", None, Some(t), &mut split, v))),
    ("delete_if_empty_tree", "operations.delete.delete_if_empty_tree", |e, t, v| costed(e.db.delete_if_empty_tree([b"a"].as_ref(), b"empty", Some(t), v))),
    ("delete_operation_for_delete_internal", "operations.delete.delete_operation_for_delete_internal", |e, t, v| costed(e.db.delete_operation_for_delete_internal([b"a"].as_ref().into(), b"empty", &DeleteOptions::default(), None, &[], Some(t), v))),
    ("average_case_delete_operation_for_delete", "operations.delete.average_case_delete_operation_for_delete", |_, _, v| costed(GroveDb::average_case_delete_operation_for_delete::<RocksDbStorage>(&path_info(), &key_info(), TreeType::NormalTree, true, true, 0, (8, 40), v))),
    ("worst_case_delete_operation_for_delete", "operations.delete.worst_case_delete_operation_for_delete", |_, _, v| costed(GroveDb::worst_case_delete_operation_for_delete::<RocksDbStorage>(&path_info(), &key_info(), TreeType::NormalTree, true, true, 0, 40, v))),
    ("delete_up_tree_while_empty", "operations.delete_up_tree.delete_up_tree_while_empty", |e, t, v| costed(e.db.delete_up_tree_while_empty([b"a".as_slice(), b"up"].as_ref(), b"up", &up_options(), Some(t), v))),
    ("delete_up_tree_while_empty_with_sectional_storage", "operations.delete_up_tree.delete_up_tree_while_empty_with_sectional_storage", |e, t, v| costed(e.db.delete_up_tree_while_empty_with_sectional_storage([b"a".as_slice(), b"up"].as_ref().into(), b"up", &up_options(), Some(t), split, v))),
    ("delete_operations_for_delete_up_tree_while_empty", "operations.delete_up_tree.delete_operations_for_delete_up_tree_while_empty", |e, t, v| costed(e.db.delete_operations_for_delete_up_tree_while_empty([b"a".as_slice(), b"up"].as_ref().into(), b"up", &up_options(), None, vec![], Some(t), v))),
    ("add_delete_operations_for_delete_up_tree_while_empty", "operations.delete_up_tree.add_delete_operations_for_delete_up_tree_while_empty", |e, t, v| costed(e.db.add_delete_operations_for_delete_up_tree_while_empty([b"a".as_slice(), b"up"].as_ref().into(), b"up", &up_options(), Some(MaybeTree::Tree(TreeType::NormalTree)), &mut vec![], Some(t), v))),
    ("query_encoded_many", "operations.query.query_encoded_many", |e, t, v| costed(e.db.query_encoded_many(&[&sized(&["a"], vec![QueryItem::Range(k("k1")..k("rz"))], None)], true, true, true, Some(t), v))),
    ("query_many_raw", "operations.query.query_many_raw", |e, t, v| costed(e.db.query_many_raw(&[&all(&["a"]), &all(&["a", "sub"])], true, true, true, QueryResultType::QueryPathKeyElementTrioResultType, Some(t), v))),
    ("get_proved_path_query", "operations.query.get_proved_path_query", |e, _, v| costed(e.db.get_proved_path_query(&all(&["a"]), None, None, v))),
    ("query", "operations.query.query", |e, t, v| costed(e.db.query(&sized(&["a"], vec![QueryItem::Range(k("k1")..k("rz"))], None), true, true, true, QueryResultType::QueryPathKeyElementTrioResultType, Some(t), v))),
    ("query_item_value", "operations.query.query_item_value", |e, t, v| costed(e.db.query_item_value(&sized(&["a"], vec![QueryItem::Range(k("k1")..k("rz"))], Some(3)), true, true, true, Some(t), v))),
    ("query_item_value_or_sum", "operations.query.query_item_value_or_sum", |e, t, v| costed(e.db.query_item_value_or_sum(&all(&["s"]), true, true, true, Some(t), v))),
    ("query_aggregate_sums", "operations.query.query_aggregate_sums", |e, t, v| costed(e.db.query_aggregate_sums(&AggregateSumPathQuery::new_single_query_item(p(&["s"]), QueryItem::RangeFull(..), 100, Some(5)), true, true, Some(t), v))),
    ("query_sums", "operations.query.query_sums", |e, t, v| costed(e.db.query_sums(&sized(&["s"], vec![QueryItem::RangeTo(..k("3"))], None), true, true, true, Some(t), v))),
    ("query_raw", "operations.query.query_raw", |e, t, v| costed(e.db.query_raw(&deeper(), true, true, true, QueryResultType::QueryPathKeyElementTrioResultType, Some(t), v))),
    ("query_keys_optional", "operations.query.query_keys_optional", |e, t, v| costed(e.db.query_keys_optional(&sized(&["a"], vec![QueryItem::Key(k("k1")), QueryItem::Key(k("none"))], Some(5)), true, true, true, Some(t), v))),
    ("query_raw_keys_optional", "operations.query.query_raw_keys_optional", |e, t, v| costed(e.db.query_raw_keys_optional(&sized(&["a"], vec![QueryItem::Key(k("k1")), QueryItem::Key(k("none"))], Some(5)), true, true, true, Some(t), v))),
    ("prove_query", "operations.proof.prove_query", |e, _, v| costed(e.db.prove_query(&deeper(), None, v))),
    ("prove_query_many", "operations.proof.prove_query_many", |e, _, v| costed(e.db.prove_query_many(vec![&all(&["a"]), &all(&["s"])], None, v))),
    ("prove_query_non_serialized", "operations.proof.prove_query_non_serialized", |e, _, v| { let r = e.db.prove_query_non_serialized(&deeper(), None, v); Gave { cost: format!("{:?}", r.cost), ..plain(r.value.map(|x| format!("{x}"))) } }),
    ("prove_trunk_chunk", "operations.proof.prove_trunk_chunk", |e, _, v| costed(e.db.prove_trunk_chunk(&PathTrunkChunkQuery::new(p(&["c"]), 3), v))),
    ("prove_trunk_chunk_non_serialized", "operations.proof.prove_trunk_chunk_non_serialized", |e, _, v| { let r = e.db.prove_trunk_chunk_non_serialized(&PathTrunkChunkQuery::new(p(&["c"]), 3), v); Gave { cost: format!("{:?}", r.cost), ..plain(r.value.map(|x| format!("{x}"))) } }),
    ("prove_branch_chunk", "operations.proof.prove_branch_chunk", |e, _, v| costed(e.db.prove_branch_chunk(&branch_query(), v))),
    ("prove_branch_chunk_non_serialized", "operations.proof.prove_branch_chunk_non_serialized", |e, _, v| { let r = e.db.prove_branch_chunk_non_serialized(&branch_query(), v); Gave { cost: format!("{:?}", r.cost), ..plain(r.value.map(|x| x.proof)) } }),
    ("apply_batch", "apply_batch.apply_batch", |e, t, v| costed(e.db.apply_batch(batch(), Some(BatchApplyOptions::default()), Some(t), v))),
    ("apply_partial_batch", "apply_batch.apply_partial_batch", |e, t, v| costed(e.db.apply_partial_batch(batch(), None, |_, _| Ok(vec![]), Some(t), v))),
    ("apply_operations_without_batching", "apply_batch.apply_operations_without_batching", |e, t, v| costed(e.db.apply_operations_without_batching(batch().into_iter().take(1).collect(), None, Some(t), v))),
    ("apply_batch_with_element_flags_update", "apply_batch.apply_batch_with_element_flags_update", |e, t, v| costed(e.db.apply_batch_with_element_flags_update(batch(), None, flags, split, Some(t), v))),
    ("apply_partial_batch_with_element_flags_update", "apply_batch.apply_partial_batch_with_element_flags_update", |e, t, v| costed(e.db.apply_partial_batch_with_element_flags_update(batch(), None, flags, split, |_, _| Ok(vec![]), Some(t), v))),
    ("batch deleting a tree", "", |e, t, v| costed(e.db.apply_batch(vec![QualifiedGroveDbOp::delete_tree_op(p(&["a"]), k("sub"), TreeType::NormalTree, SubelementsDeletionBehavior::DeleteChildren)], None, Some(t), v))),
    ("batch with appends", "", |e, t, v| costed(e.db.apply_batch(vec![QualifiedGroveDbOp::mmr_tree_append_op(p(&["m"]), k("x")), QualifiedGroveDbOp::bulk_append_op(p(&["b"]), k("y"))], None, Some(t), v))),
    ("estimated_case_operations_for_batch average", "apply_batch.estimated_case_operations_for_batch", |_, _, v| costed(GroveDb::estimated_case_operations_for_batch(layers(true), estimated(), None, flags, split, v))),
    ("estimated_case_operations_for_batch worst", "apply_batch.estimated_case_operations_for_batch", |_, _, v| costed(GroveDb::estimated_case_operations_for_batch(layers(false), estimated(), None, flags, split, v))),
    ("mmr_tree_append", "", |e, t, v| costed(e.db.mmr_tree_append([b"".as_slice(); 0].as_slice(), b"m", k("x"), Some(t), v))),
    ("bulk_append", "", |e, t, v| costed(e.db.bulk_append([b"".as_slice(); 0].as_slice(), b"b", k("x"), Some(t), v))),
    ("mmr_tree_get_value", "", |e, t, v| costed(e.db.mmr_tree_get_value([b"".as_slice(); 0].as_slice(), b"m", 2, Some(t), v))),
    ("bulk_get_value", "", |e, t, v| costed(e.db.bulk_get_value([b"".as_slice(); 0].as_slice(), b"b", 2, Some(t), v))),
    ("root_hash", "", |e, t, v| costed(e.db.root_hash(Some(t), v))),
    ("verify_grovedb", "", |e, t, v| plain(e.db.verify_grovedb(Some(t), true, false, v))),
    ("fetch_chunk", "replication.fetch_chunk", |e, t, v| plain(root(e).and_then(|r| e.db.fetch_chunk(&r, Some(t), 1, v)))),
    ("start_snapshot_syncing", "replication.start_snapshot_syncing", |e, _, v| plain(e.db.start_snapshot_syncing([1; 32], 2, 1, v).map(|_| ()))),
    ("serialize", "element.serialize", |_, _, v| plain(Element::new_sum_item_with_flags(77, Some(vec![1, 2])).serialize(v))),
    ("serialized_size", "element.serialized_size", |_, _, v| plain(Element::new_sum_item_with_flags(77, Some(vec![1, 2])).serialized_size(v))),
    ("deserialize", "element.deserialize", |_, _, v| plain(Element::deserialize(&[2, 1, 1, 9, 0], v))),
    ("required_item_space", "element.required_item_space", |_, _, v| plain(Element::required_item_space(20, 3, v))),
    ("path query merge", "path_query_methods.merge", |_, _, v| plain(PathQuery::merge(vec![&all(&["a"]), &all(&["s"])], v))),
    ("terminal_keys", "path_query_methods.terminal_keys", |_, _, v| plain(sized(&["a"], vec![QueryItem::Key(k("k1"))], None).terminal_keys(10, v))),
    ("query_items_at_path", "path_query_methods.query_items_at_path", |_, _, v| plain(deeper().query_items_at_path(&[b"a", b"sub"], v).map(|x| format!("{x:?}")))),
    ("should_add_parent_tree_at_path", "path_query_methods.should_add_parent_tree_at_path", |_, _, v| plain(deeper().should_add_parent_tree_at_path(&[b"a", b"sub"], v))),
    ("aggregate merge", "aggregate_sum_path_query_methods.merge", |_, _, v| plain(AggregateSumPathQuery::merge(vec![&AggregateSumPathQuery::new_single_key(p(&["s"]), k("1"), 5), &AggregateSumPathQuery::new_single_key(p(&["s"]), k("3"), 6)], v))),
    ("average_case_merk_insert_tree", "operations.average_case.average_case_merk_insert_tree", |_, _, v| costed(GroveDb::average_case_merk_insert_tree(&key_info(), &None, TreeType::NormalTree, TreeType::NormalTree, Some(&layer()), v))),
    ("average_case_merk_delete_tree", "operations.average_case.average_case_merk_delete_tree", |_, _, v| costed(GroveDb::average_case_merk_delete_tree(&key_info(), TreeType::NormalTree, &trees(EstimatedSumTrees::NoSumTrees), true, v))),
    ("average_case_merk_insert_element", "operations.average_case.average_case_merk_insert_element", |_, _, v| costed(GroveDb::average_case_merk_insert_element(&key_info(), &item("x"), TreeType::NormalTree, Some(&layer()), v))),
    ("average_case_merk_replace_element", "operations.average_case.average_case_merk_replace_element", |_, _, v| costed(GroveDb::average_case_merk_replace_element(&key_info(), &item("x"), TreeType::NormalTree, Some(&layer()), v))),
    ("average_case_merk_replace_element in sums", "operations.average_case.average_case_merk_replace_element", |_, _, v| costed(GroveDb::average_case_merk_replace_element(&key_info(), &item("x"), TreeType::NormalTree, Some(&trees(some_sums())), v))),
    ("average_case_merk_patch_element", "operations.average_case.average_case_merk_patch_element", |_, _, v| costed(GroveDb::average_case_merk_patch_element(&key_info(), &item("x"), 3, TreeType::NormalTree, Some(&layer()), v))),
    ("average_case_merk_delete_element", "operations.average_case.average_case_merk_delete_element", |_, _, v| costed(GroveDb::average_case_merk_delete_element(&key_info(), &layer(), true, v))),
    ("add_average_case_get_merk_at_path", "operations.average_case.add_average_case_get_merk_at_path", |_, _, v| cost_of(|c| GroveDb::add_average_case_get_merk_at_path::<RocksDbStorage>(c, &path_info(), false, TreeType::NormalTree, v))),
    ("add_average_case_has_raw_cost", "operations.average_case.add_average_case_has_raw_cost", |_, _, v| cost_of(|c| GroveDb::add_average_case_has_raw_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 30, TreeType::NormalTree, v))),
    ("add_average_case_has_raw_tree_cost", "operations.average_case.add_average_case_has_raw_tree_cost", |_, _, v| cost_of(|c| GroveDb::add_average_case_has_raw_tree_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 3, TreeType::SumTree, TreeType::NormalTree, v))),
    ("add_average_case_get_raw_cost", "operations.average_case.add_average_case_get_raw_cost", |_, _, v| cost_of(|c| GroveDb::add_average_case_get_raw_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 30, TreeType::NormalTree, v))),
    ("add_average_case_get_raw_tree_cost", "operations.average_case.add_average_case_get_raw_tree_cost", |_, _, v| cost_of(|c| GroveDb::add_average_case_get_raw_tree_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 3, TreeType::SumTree, TreeType::NormalTree, v))),
    ("add_average_case_get_cost", "operations.average_case.add_average_case_get_cost", |_, _, v| cost_of(|c| GroveDb::add_average_case_get_cost::<RocksDbStorage>(c, &path_info(), &key_info(), TreeType::NormalTree, 30, vec![20], v))),
];
fn root(e: &Env) -> Result<[u8; 32], grovedb::Error> {
    e.db.root_hash(None, GroveVersion::latest()).unwrap()
}
fn branch_query() -> PathBranchChunkQuery {
    PathBranchChunkQuery::new(p(&["c"]), vec![b'0' + 3], 2)
}
fn path_info() -> KeyInfoPath {
    KeyInfoPath::from_known_owned_path(p(&["a", "b"]))
}
fn key_info() -> KeyInfo {
    KeyInfo::KnownKey(k("key"))
}
const OPTIONS: VerifyOptions = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: true, include_empty_trees_in_result: true };
fn finite() -> PathQuery {
    sized(&["a"], vec![QueryItem::Key(k("k1")), QueryItem::Key(k("none"))], Some(5))
}
const CHECKS: &[(&str, &str, Check)] = &[
    ("verify_query", "operations.proof.verify_query", |m, v| plain(GroveDb::verify_query(&m.deep, &deeper(), v))),
    ("verify_query_raw", "operations.proof.verify_query_raw", |m, v| plain(GroveDb::verify_query_raw(&m.deep, &deeper(), v).map(|x| format!("{x:?}")))),
    ("verify_query_with_options", "operations.proof.verify_query_with_options", |m, v| plain(GroveDb::verify_query_with_options(&m.deep, &deeper(), OPTIONS, v))),
    ("verify_subset_query", "operations.proof.verify_subset_query", |m, v| plain(GroveDb::verify_subset_query(&m.deep, &deeper(), v))),
    ("verify_query_get_parent_tree_info", "operations.proof.verify_query", |m, v| plain(GroveDb::verify_query_get_parent_tree_info(&m.proof, &finite(), v))),
    ("verify_query_get_parent_tree_info_with_options", "operations.proof.verify_query_get_parent_tree_info_with_options", |m, v| plain(GroveDb::verify_query_get_parent_tree_info_with_options(&m.proof, &finite(), OPTIONS, v))),
    ("verify_query_with_absence_proof", "operations.proof.verify_query_with_absence_proof", |m, v| plain(GroveDb::verify_query_with_absence_proof(&m.proof, &finite(), v))),
    ("verify_subset_query_with_absence_proof", "operations.proof.verify_subset_query_with_absence_proof", |m, v| plain(GroveDb::verify_subset_query_with_absence_proof(&m.proof, &finite(), v))),
    ("verify_query_with_chained_path_queries", "operations.proof.verify_query_with_chained_path_queries", |m, v| plain(GroveDb::verify_query_with_chained_path_queries(&m.proof, &finite(), vec![|_: Vec<_>| Some(finite())], v))),
    ("verify_trunk_chunk_proof", "", |m, v| plain(GroveDb::verify_trunk_chunk_proof(&m.trunk, &PathTrunkChunkQuery::new(p(&["c"]), 3), v).map(|x| format!("{:?} {:?}", x.0, x.1.elements)))),
    ("verify_branch_chunk_proof", "", |m, v| plain(GroveDb::verify_branch_chunk_proof(&m.branch, &branch_query(), m.leaf, v).map(|x| format!("{:?}", x.elements)))),
];

/// the fields of an unknown-version error, if that is what went wrong
fn refusal(g: &Gave) -> Option<(String, Vec<u16>, u16)> {
    let (_, rest) = g.result.split_once("UnknownVersionMismatch")?;
    if g.ok {
        return None;
    }
    let rest: String = rest.chars().filter(|c| *c != '\\').collect();
    let (_, m) = rest.split_once("method: \"").or_else(|| rest.split_once("on "))?;
    let (method, rest) = m.split_once('"')?;
    let (_, rest) = rest.split_once("known_versions: [")?;
    let (known, rest) = rest.split_once(']')?;
    let (_, rest) = rest.split_once("received: ")?;
    let received: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    Some((method.to_string(), known.split(',').filter_map(|x| x.trim().parse().ok()).collect(), received.parse().ok()?))
}

/// a storage whose root tree holds k1, k2, a reference r and the trees t and s
pub struct Low {
    storage: RocksDbStorage,
    _dir: Scratch,
}
pub fn low(v: &GroveVersion) -> Low {
    let dir = Scratch::new();
    let none: [&[u8]; 0] = [];
    {
        let db = GroveDb::open(dir.sub("db")).expect("opens");
        for (key, e) in [
            ("k1", item("one")),
            ("k2", item("two")),
            ("r", Element::new_reference(ReferencePathType::SiblingReference(k("k1")))),
            ("t", Element::empty_tree()),
            ("s", Element::empty_sum_tree()),
        ] {
            db.insert(none.as_slice(), key.as_bytes(), e, None, None, v).unwrap().expect("fixture");
        }
        db.insert([b"t"].as_ref(), b"x", item("inner"), None, None, v).unwrap().expect("fixture");
    }
    Low { storage: RocksDbStorage::default_rocksdb_with_path(dir.sub("db")).expect("opens"), _dir: dir }
}
type LowRun = fn(&Low, &GroveVersion) -> Gave;
macro_rules! on_merk {
    (|$m:ident, $v:ident| $e:expr) => {
        |l, $v| {
            let tx = l.storage.start_transaction();
            let batch = StorageBatch::new();
            let ctx = l.storage.get_transactional_storage_context(SubtreePath::from([].as_slice() as &[&[u8]]), Some(&batch), &tx).unwrap();
            // opened with the published version: only the operation itself is judged
            match Merk::open_base(ctx, TreeType::NormalTree, Some(&Element::value_defined_cost_for_serialized_value), GroveVersion::latest()).unwrap() {
                Ok(mut $m) => {
                    let r = costed($e);
                    Gave { result: if r.ok { format!("{} {:?}", r.result, $m.root_hash().unwrap()) } else { r.result }, ..r }
                }
                Err(e) => plain::<(), _>(Err(e)),
            }
        }
    };
}
fn opts() -> QueryOptions {
    QueryOptions::default()
}
fn full() -> Query {
    let mut q = Query::new();
    q.insert_all();
    q
}
fn queued<T: Debug, E: Debug>(r: CostResult<T, E>, ops: &dyn Debug) -> CostResult<String, String> {
    r.map(|x| x.map(|x| format!("{x:?} {ops:?}")).map_err(|e| format!("{e:?}")))
}
const FEATURE: TreeFeatureType = TreeFeatureType::BasicMerkNode;
const LOW: &[(&str, &str, LowRun)] = &[
    ("element delete", "element.delete", on_merk!(|m, v| Element::delete(&mut m, b"k1", None, false, TreeType::NormalTree, v))),
    ("element delete sectioned", "element.delete_with_sectioned_removal_bytes", on_merk!(|m, v| Element::delete_with_sectioned_removal_bytes(&mut m, b"k1", None, false, TreeType::NormalTree, &mut |_, a, b| Ok((StorageRemovedBytes::BasicStorageRemoval(a), StorageRemovedBytes::BasicStorageRemoval(b))), v))),
    ("element delete queued", "element.delete_into_batch_operations", on_merk!(|m, v| { let mut o: Vec<BatchEntry<&[u8]>> = vec![]; let _ = &m; let r = Element::delete_into_batch_operations(b"k1".as_slice(), false, TreeType::NormalTree, &mut o, v); queued(r, &o) })),
    ("element exists", "element.element_at_key_already_exists", on_merk!(|m, v| item("").element_at_key_already_exists(&mut m, b"k1", v))),
    ("element get", "element.get", on_merk!(|m, v| Element::get(&m, b"k1", true, v))),
    ("element get_optional", "element.get_optional", on_merk!(|m, v| Element::get_optional(&m, b"none", true, v))),
    ("element get_from_storage", "element.get_from_storage", on_merk!(|m, v| Element::get_from_storage(&m.storage, b"k2", v))),
    ("element get_optional_from_storage", "element.get_optional_from_storage", on_merk!(|m, v| Element::get_optional_from_storage(&m.storage, b"k2", v))),
    ("element get_with_absolute_refs", "element.get_with_absolute_refs", on_merk!(|m, v| Element::get_with_absolute_refs(&m, &[], b"r", true, v))),
    ("element get_optional_with_absolute_refs", "element.get_with_absolute_refs", on_merk!(|m, v| Element::get_optional_with_absolute_refs(&m, &[], b"r", true, v))),
    ("element get_value_hash", "element.get_value_hash", on_merk!(|m, v| Element::get_value_hash(&m, b"r", true, v))),
    ("element get_with_value_hash", "element.get_with_value_hash", on_merk!(|m, v| Element::get_with_value_hash(&m, b"r", true, v))),
    ("element insert", "element.insert", on_merk!(|m, v| item("x").insert(&mut m, b"n", None, v))),
    ("element insert queued", "element.insert_into_batch_operations", on_merk!(|m, v| { let mut o: Vec<BatchEntry<&[u8]>> = vec![]; let _ = &m; let r = item("x").insert_into_batch_operations(b"n".as_slice(), &mut o, FEATURE, v); queued(r, &o) })),
    ("element insert_if_not_exists", "element.insert_if_not_exists", on_merk!(|m, v| item("x").insert_if_not_exists(&mut m, b"n", None, v))),
    ("element insert_if_not_exists, there", "element.insert_if_not_exists", on_merk!(|m, v| item("x").insert_if_not_exists(&mut m, b"k1", None, v))),
    ("element insert_if_not_exists queued", "element.insert_if_not_exists_into_batch_operations", on_merk!(|m, v| { let mut o: Vec<BatchEntry<&[u8]>> = vec![]; let r = item("x").insert_if_not_exists_into_batch_operations(&mut m, b"n".as_slice(), &mut o, FEATURE, v); queued(r, &o) })),
    ("element insert_if_changed_value", "element.insert_if_changed_value", on_merk!(|m, v| item("x").insert_if_changed_value(&mut m, b"k1", None, v))),
    ("element insert_if_changed_value queued", "element.insert_if_changed_value_into_batch_operations", on_merk!(|m, v| { let mut o: Vec<BatchEntry<&[u8]>> = vec![]; let r = item("x").insert_if_changed_value_into_batch_operations(&mut m, b"k1".as_slice(), &mut o, FEATURE, v); queued(r, &o) })),
    ("element insert_reference", "element.insert_reference", on_merk!(|m, v| Element::new_reference(ReferencePathType::SiblingReference(k("k2"))).insert_reference(&mut m, b"n", [7; 32], None, v))),
    ("element insert_reference queued", "element.insert_reference_into_batch_operations", on_merk!(|m, v| { let mut o: Vec<BatchEntry<&[u8]>> = vec![]; let _ = &m; let r = Element::new_reference(ReferencePathType::SiblingReference(k("k2"))).insert_reference_into_batch_operations(b"n".as_slice(), [7; 32], &mut o, FEATURE, v); queued(r, &o) })),
    ("element insert_subtree", "element.insert_subtree", on_merk!(|m, v| Element::empty_tree().insert_subtree(&mut m, b"n", [0; 32], None, v))),
    ("element insert_subtree queued", "element.insert_subtree_into_batch_operations", on_merk!(|m, v| { let mut o: Vec<BatchEntry<&[u8]>> = vec![]; let _ = &m; let r = Element::empty_tree().insert_subtree_into_batch_operations(b"n".as_slice(), [0; 32], false, &mut o, FEATURE, v); queued(r, &o) })),
    ("element specialized_costs_for_key_value", "element.specialized_costs_for_key_value", |_, v| plain(Element::specialized_costs_for_key_value(&k("key"), &Element::empty_sum_tree().serialize(GroveVersion::latest()).expect("valid"), TreeType::NormalTree.inner_node_type(), v))),
    ("element get_query", "element.get_query", |l, v| costed(Element::get_query(&l.storage, &[], &full(), opts(), QueryResultType::QueryKeyElementPairResultType, None, v))),
    ("element get_query_values", "element.get_query_values", |l, v| costed(Element::get_query_values(&l.storage, &[], &full(), opts(), None, v))),
    ("element get_sized_query", "element.get_sized_query", |l, v| costed(Element::get_sized_query(&l.storage, &[], &SizedQuery::new(full(), Some(2), None), opts(), QueryResultType::QueryKeyElementPairResultType, None, v))),
    ("element get_path_query", "element.get_path_query", |l, v| costed(Element::get_path_query(&l.storage, &all(&["t"]), opts(), QueryResultType::QueryKeyElementPairResultType, None, v))),
    ("worst_case_merk_insert_tree", "operations.worst_case.worst_case_merk_insert_tree", |_, v| costed(GroveDb::worst_case_merk_insert_tree(&key_info(), &None, TreeType::SumTree, TreeType::NormalTree, Some(&WorstCaseLayerInformation::MaxElementsNumber(9)), v))),
    ("worst_case_merk_delete_tree", "operations.worst_case.worst_case_merk_delete_tree", |_, v| costed(GroveDb::worst_case_merk_delete_tree(&key_info(), TreeType::NormalTree, &WorstCaseLayerInformation::MaxElementsNumber(9), true, v))),
    ("worst_case_merk_insert_element", "operations.worst_case.worst_case_merk_insert_element", |_, v| costed(GroveDb::worst_case_merk_insert_element(&key_info(), &item("x"), TreeType::NormalTree, None, v))),
    ("worst_case_merk_replace_element", "operations.worst_case.worst_case_merk_replace_element", |_, v| costed(GroveDb::worst_case_merk_replace_element(&key_info(), &item("x"), TreeType::NormalTree, None, v))),
    ("worst_case_merk_patch_element", "operations.worst_case.worst_case_merk_patch_element", |_, v| costed(GroveDb::worst_case_merk_patch_element(&key_info(), &item("x"), 2, TreeType::NormalTree, None, v))),
    ("worst_case_merk_delete_element", "operations.worst_case.worst_case_merk_delete_element", |_, v| costed(GroveDb::worst_case_merk_delete_element(&key_info(), &WorstCaseLayerInformation::MaxElementsNumber(9), true, v))),
    ("add_worst_case_get_merk_at_path", "operations.worst_case.add_worst_case_get_merk_at_path", |_, v| cost_of(|c| GroveDb::add_worst_case_get_merk_at_path::<RocksDbStorage>(c, &path_info(), TreeType::NormalTree, v))),
    ("add_worst_case_has_raw_cost", "operations.worst_case.add_worst_case_has_raw_cost", |_, v| cost_of(|c| GroveDb::add_worst_case_has_raw_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 30, TreeType::NormalTree, v))),
    ("add_worst_case_get_raw_tree_cost", "operations.worst_case.add_worst_case_get_raw_tree_cost", |_, v| cost_of(|c| GroveDb::add_worst_case_get_raw_tree_cost::<RocksDbStorage>(c, &path_info(), &key_info(), TreeType::NormalTree, TreeType::NormalTree, v))),
    ("add_worst_case_get_raw_cost", "operations.worst_case.add_worst_case_get_raw_cost", |_, v| cost_of(|c| GroveDb::add_worst_case_get_raw_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 30, TreeType::NormalTree, v))),
    ("add_worst_case_get_cost", "operations.worst_case.add_worst_case_get_cost", |_, v| cost_of(|c| GroveDb::add_worst_case_get_cost::<RocksDbStorage>(c, &path_info(), &key_info(), 30, TreeType::NormalTree, vec![9], v))),
    ("average_case_delete_operations_for_delete_up_tree_while_empty", "operations.delete_up_tree.average_case_delete_operations_for_delete_up_tree_while_empty", |_, v| costed(GroveDb::average_case_delete_operations_for_delete_up_tree_while_empty::<RocksDbStorage>(&path_info(), &key_info(), Some(1), true, intmap::IntMap::from_iter([(0u16, layer()), (1, layer()), (2, layer())]), v))),
    ("worst_case_delete_operations_for_delete_up_tree_while_empty", "operations.delete_up_tree.worst_case_delete_operations_for_delete_up_tree_while_empty", |_, v| costed(GroveDb::worst_case_delete_operations_for_delete_up_tree_while_empty::<RocksDbStorage>(&path_info(), &key_info(), Some(1), true, intmap::IntMap::from_iter([(0u64, (TreeType::NormalTree, 30)), (1, (TreeType::NormalTree, 30)), (2, (TreeType::NormalTree, 30))]), 50, v))),
    ("average_case_merk_propagate", "average_case_costs.add_average_case_merk_propagate", |_, v| costed(grovedb_merk::estimated_costs::average_case_costs::average_case_merk_propagate(&trees(some_sums()), v))),
];

const VALUES: [u16; 9] = [0, 1, 2, 3, 7, 99, 256, 32768, u16::MAX];

fn made(e: &Env, v: &GroveVersion) -> Made {
    let ok = |r: CostResult<Vec<u8>, grovedb::Error>| r.unwrap().expect("proves");
    let q = PathTrunkChunkQuery::new(p(&["c"]), 3);
    let trunk = ok(e.db.prove_trunk_chunk(&q, v));
    let (_, shown) = GroveDb::verify_trunk_chunk_proof(&trunk, &q, v).expect("verifies");
    let leaf = shown.leaf_keys.get(&branch_query().key).map(|x| x.hash).unwrap_or([0; 32]);
    Made { proof: ok(e.db.prove_query(&finite(), None, v)), deep: ok(e.db.prove_query(&deeper(), None, v)), trunk, branch: ok(e.db.prove_branch_chunk(&branch_query(), v)), leaf }
}
/// every operation's outcome under a version table
fn outcomes(e: &Env, l: &Low, m: &Made, v: &GroveVersion) -> Vec<Gave> {
    let mut out = vec![];
    for (_, _, f) in OPS {
        let t = e.db.start_transaction();
        out.push(f(e, &t, v));
        let _ = e.db.rollback_transaction(&t);
    }
    out.extend(LOW.iter().map(|(_, _, f)| f(l, v)));
    out.extend(CHECKS.iter().map(|(_, _, f)| f(m, v)));
    out
}
fn names() -> Vec<(&'static str, &'static str)> {
    OPS.iter().map(|o| (o.0, o.1)).chain(LOW.iter().map(|o| (o.0, o.1))).chain(CHECKS.iter().map(|o| (o.0, o.1))).collect()
}
type Err_ = grovedb_version::error::GroveVersionError;
fn macros(x: u16) -> Vec<(&'static str, bool, Result<u16, Err_>)> {
    use grovedb_version::error::GroveVersionError;
    use grovedb_version::*;
    fn a(x: u16) -> Result<u16, GroveVersionError> {
        check_grovedb_v0!("op", x);
        Ok(x)
    }
    fn b(x: u16) -> CostResult<u16, GroveVersionError> {
        check_grovedb_v0_with_cost!("op", x);
        CostResult { value: Ok(x), cost: OperationCost::default() }
    }
    fn c(x: u16) -> Result<u16, GroveVersionError> {
        Ok(check_grovedb_v0_or_v1!("op", x))
    }
    fn d(x: u16) -> CostResult<u16, GroveVersionError> {
        check_grovedb_v0_or_v1_with_cost!("op", x);
        CostResult { value: Ok(x), cost: OperationCost::default() }
    }
    fn e(x: u16) -> Result<u16, GroveVersionError> {
        check_merk_v0!("op", x);
        Ok(x)
    }
    fn f(x: u16) -> CostResult<u16, GroveVersionError> {
        check_merk_v0_with_cost!("op", x);
        CostResult { value: Ok(x), cost: OperationCost::default() }
    }
    vec![
        ("check_grovedb_v0", false, a(x)),
        ("check_grovedb_v0_with_cost", false, b(x).value),
        ("check_grovedb_v0_or_v1", true, c(x)),
        ("check_grovedb_v0_or_v1_with_cost", true, d(x).value),
        ("check_merk_v0", false, e(x)),
        ("check_merk_v0_with_cost", false, f(x).value),
    ]
}
/// what was published, apart from zeros: a version in use never changes
const PUBLISHED: [(u32, &[&str]); 3] = [
    (1, &[]),
    (2, &["element.get_optional_from_storage", "average_case_merk_replace_tree", "add_average_case_merk_propagate", "sum_tree_estimated_size"]),
    (
        3,
        &[
            "element.get_optional_from_storage",
            "average_case_merk_replace_tree",
            "add_average_case_merk_propagate",
            "sum_tree_estimated_size",
            "proof.prove_query_non_serialized",
            "proof.prove_trunk_chunk",
            "proof.prove_trunk_chunk_non_serialized",
            "batch.commit",
        ],
    ),
];
/// the outcome, as far as all versions share it
fn shared(n: &str, g: &Gave) -> String {
    if n.contains("prove") { format!("{}", g.ok) } else { format!("{} {}", g.ok, g.result) }
}
pub fn v01(x: &Ctx) {
    x.rule("every operation that asks a version number runs under every published table and under tables with one number replaced: it does what it does under the published table or is refused, its own number always deciding; the check macros under all numbers");
    let mut tables: Vec<GroveVersion> = GROVE_VERSIONS.to_vec();
    tables.truncate(3);
    x.cases("published tables", 1, |c| {
        c.ensure(GROVE_VERSIONS.len() >= 3, "a-version-is-gone", || format!("{}", GROVE_VERSIONS.len()))?;
        let (first, last) = (GroveVersion::first(), GroveVersion::latest());
        c.ensure(first.protocol_version == 1 && last.protocol_version as usize == GROVE_VERSIONS.len(), "first-or-latest", || format!("{} {}", first.protocol_version, last.protocol_version))?;
        for (i, v) in GROVE_VERSIONS.iter().enumerate() {
            c.same(&(v.protocol_version as usize), &(i + 1), "protocol-version")?;
            let Some((_, ones)) = PUBLISHED.iter().find(|p| p.0 == v.protocol_version) else { continue };
            let mut v = v.clone();
            for (slot, f) in SLOTS {
                let want = ones.iter().any(|o| slot.ends_with(o) && (slot.ends_with(&format!(".{o}")))) as u16;
                let got = *f(&mut v);
                c.ensure(got == want, "published-number", || format!("version {} {slot}: {got}, published with {want}", v.protocol_version))?;
                c.eval(fnv(format!("{} {slot}", v.protocol_version).as_bytes()), true);
            }
        }
        Ok(())
    });
    x.cases("check macros", 64, |c| {
        for n in (c.idx * 1024)..(c.idx * 1024 + 1024) {
            let n = n as u16;
            for (name, both, r) in macros(n) {
                let known: Vec<u16> = if both { vec![0, 1] } else { vec![0] };
                match r {
                    Ok(r) => c.ensure(known.contains(&n) && r == n, "macro-accepts", || format!("{name}: {n} passed as {r}"))?,
                    Err(Err_::UnknownVersionMismatch { method, known_versions, received }) => {
                        c.ensure(!known.contains(&n) && method == "op" && known_versions == known && received == n, "macro-refuses", || format!("{name}: {n} refused as {method} {known_versions:?} {received}"))?
                    }
                    Err(e) => return c.fail("macro-refuses", format!("{name}: {n}: {e}")),
                }
                c.eval(fnv(name.as_bytes()) ^ n as u64, n > 0);
            }
        }
        c.count("numbers tried on the check macros", 1024);
        Ok(())
    });
    x.cases("published operations", 1, |c| {
        let latest = GroveVersion::latest();
        let (e, l) = (env(latest), low(latest));
        let all: Vec<Vec<Gave>> = tables.iter().map(|v| outcomes(&e, &l, &made(&e, v), v)).collect();
        for (i, (n, _)) in names().iter().enumerate() {
            for (v, o) in tables.iter().zip(&all) {
                let g = &o[i];
                c.ensure(refusal(g).is_none(), "published-number-refused", || format!("version {} {n}: {}", v.protocol_version, g.result))?;
                c.ensure(shared(n, g) == shared(n, &all[2][i]), "versions-disagree", || format!("{n}: version {}: {}\nversion 3: {}", v.protocol_version, g.result, all[2][i].result))?;
                c.eval(fnv(format!("{n} {:?}", g).as_bytes()), true);
            }
        }
        for (v, want) in tables.iter().zip(["V0", "V0", "V1"]) {
            let m = made(&e, v);
            for (n, proof) in [("query", &m.proof), ("nested query", &m.deep), ("trunk", &m.trunk)] {
                let p: Result<(grovedb::operations::proof::GroveDBProof, usize), _> = bincode::decode_from_slice(proof, bincode::config::standard().with_big_endian().with_no_limit());
                let kind = match p {
                    Ok((grovedb::operations::proof::GroveDBProof::V0(_), _)) => "V0",
                    Ok((grovedb::operations::proof::GroveDBProof::V1(_), _)) => "V1",
                    Err(_) => "undecodable",
                };
                c.ensure(kind == want, "proof-envelope", || format!("version {}: {n} proof is {kind}, not {want}", v.protocol_version))?;
            }
        }
        c.count("operations of published versions", (names().len() * tables.len()) as u64);
        Ok(())
    });
    x.cases("replaced numbers", SLOTS.len() as u64 * x.n(1, 3), |c| {
        let (slot, f) = SLOTS[c.idx as usize % SLOTS.len()];
        let v = &tables[2 - c.idx as usize / SLOTS.len()];
        let (e, l) = (env(v), low(v));
        let m = made(&e, v);
        let base = outcomes(&e, &l, &m, v);
        let published: BTreeSet<u16> = tables.iter().map(|t| *f(&mut t.clone())).collect();
        let mut named: BTreeSet<u16> = BTreeSet::new();
        let mut values = VALUES.to_vec();
        values.extend([c.rng.u64() as u16, c.rng.u64() as u16 % 20]);
        // what the refusal of a number nobody uses says is known
        values.insert(0, 54321);
        for x in values {
            let mut w = v.clone();
            *f(&mut w) = x;
            let got = outcomes(&e, &l, &m, &w);
            for (((n, own), b), g) in names().iter().zip(&base).zip(&got) {
                let is_own = !own.is_empty() && slot.ends_with(&format!(".{own}"));
                let tell = || format!("{n} under {slot} = {x}\ngave {}\nunder the published {} it gave {}", g.result, *f(&mut v.clone()), b.result);
                let r = refusal(g);
                if let Some((method, known, received)) = &r {
                    if x == 54321 {
                        named.extend(known);
                    }
                    c.ensure(*received == x && !known.contains(&x) && published.iter().all(|p| known.contains(p)), "refusal-wrong", tell)?;
                    c.ensure(!is_own || method.contains(slot.rsplit('.').next().unwrap_or("")), "refusal-names-another", tell)?;
                    c.count("refusals", 1);
                    c.eval(fnv(format!("{n} {slot} {x}").as_bytes()), true);
                    continue;
                }
                let known = published.contains(&x) || named.contains(&x);
                if known {
                    c.ensure(g.ok == b.ok || !g.result.contains("unknown version"), "known-number-refused", tell)?;
                    continue;
                }
                if is_own {
                    return c.fail("unknown-number-runs", tell());
                }
                c.ensure(b == g || !g.ok, "unknown-number-runs-another", tell)?;
                c.count("operations run under an unknown number they do not ask", (b == g) as u64);
            }
        }
        Ok(())
    });
    x.require("refusals", 3000);
    x.require("numbers tried on the check macros", 65536);
}
